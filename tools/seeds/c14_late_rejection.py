PROPERTY = "C14"
EDITS = [("jqtrade/account/trade_gate.py", "                        if _order:\n", "                        if _order and not _order.get(\"entrust_time\"):\n")]
NEEDS = "a rejection in the result file that arrives after an update of that order was taken over"
BREAKS = "the rejection is ignored, the order goes on looking alive"
# --- demo
gate, files, run = dma()
gate.order(sys_order("1"))
put(os.path.join(files, "execResult_%s.csv" % day()), RESULT_HEADER)
put(os.path.join(files, "orderUpdate_%s.csv" % day()), UPDATE_HEADER + update_line("1", "0"))
gate.sync_orders()
put(os.path.join(files, "execResult_%s.csv" % day()), "093001.000,1,1,1,-101,no money\n", "a")
got = {str(o["order_id"]): o for o in gate.sync_orders()}["1"]
check((got["status"], got["err_msg"]) == ("rejected", "no money"), "the rejected order is shown as %s" % got)
