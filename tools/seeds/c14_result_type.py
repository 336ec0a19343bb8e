PROPERTY = "C14"
EDITS = [("jqtrade/account/trade_gate.py", """                        if self._has_synced:
                            logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
                                        f"失败原因：{_order_result_line.errorMsg}")
                        self._order_result_offset = rf.tell()
                        continue
""", """                        if self._has_synced:
                            logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
                                        f"失败原因：{_order_result_line.errorMsg}")
                            self._order_result_offset = rf.tell()
                            continue
"""), ("jqtrade/account/trade_gate.py", """                    if _order_result_line.resultType == self.RESULT_TYPE_ORDER \\
                            and _order_result_line.status""", """                    if _order_result_line.resultType \\
                            and _order_result_line.status""")]
NEEDS = "a refused cancellation among the result lines read by the first synchronisation after the start"
BREAKS = "the refused cancellation marks its order rejected"
# --- demo
gate, files, run = dma()
gate.order(sys_order("1"))
put(os.path.join(files, "orderUpdate_%s.csv" % day()), UPDATE_HEADER)
put(os.path.join(files, "execResult_%s.csv" % day()), RESULT_HEADER + "093001.000,2,1,1,42,too late\n")
got = {o["order_id"]: o for o in gate.sync_orders()}
check(got["1"]["status"] == "new" and "too late" not in str(got["1"]["err_msg"]), "a refused cancellation changed the order: %s" % got["1"])
