PROPERTY = "C14"
EDITS = [("jqtrade/account/trade_gate.py", """                    if order_line.custBatchNo not in self._orders:
                        self""", """                    if order_line.custBatchNo not in self._orders and self._ignore_error_line:
                        self""")]
NEEDS = "ignore_error_line switched off and a line of another strategy's order in the update file"
BREAKS = "another strategy's line is treated as an error: the synchronisation fails and the lines behind it are not taken over"
# --- demo
gate, files, run = dma(ignore_error_line=False)
gate.order(sys_order("1"))
put(os.path.join(files, "execResult_%s.csv" % day()), RESULT_HEADER)
put(os.path.join(files, "orderUpdate_%s.csv" % day()), UPDATE_HEADER + update_line("999", "2", 100, 0, "10", "1000") + update_line("1", "2", 100, 0, "10.0", "1000"))
try:
    got = {o["order_id"]: o for o in gate.sync_orders()}
except Exception as e:
    check(False, "the synchronisation failed: %r" % e)
check(got["1"]["status"] == "filled" and got["1"]["filled_amount"] == 100, "order shown as %s" % got["1"])
