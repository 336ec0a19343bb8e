PROPERTY = "C15"
EDITS = [("jqtrade/account/trade_gate.py", "                self._orders = orders\n", """                self._orders = {_id: _info for _id, _info in orders.items()
                                if _info["status"] not in ("canceled", "partly_canceled")}
""")]
NEEDS = "a restart on a day on which an order was cancelled"
BREAKS = "the cancelled order, and what was filled of it, is unknown after the restart"
# --- demo
gate, files, run = dma()
gate.order(sys_order("1"))
gate.order(sys_order("2"))
put(os.path.join(files, "execResult_%s.csv" % day()), RESULT_HEADER)
put(os.path.join(files, "orderUpdate_%s.csv" % day()), UPDATE_HEADER + update_line("1", "3", 40, 60, "10.0", "400") + update_line("2", "0"))
gate.sync_orders()
gate2, _, _ = dma(files=files, run=run)
got = {str(o["order_id"]): o for o in gate2.sync_orders()}
check(set(got) == {"1", "2"}, "after the restart the orders %s are known" % sorted(got))
check((got["1"]["status"], got["1"]["filled_amount"]) == ("partly_canceled", 40), "the cancelled order is shown as %s" % got["1"])
