PROPERTY = "C13"
EDITS = [("jqtrade/account/trade_gate.py", """                        raise TimeOut("waiting file lock time out")
""", """                        logger.error("waiting file lock time out")
                        return
""")]
NEEDS = "the order file stays locked by another process beyond the time-out"
BREAKS = "the order is taken for submitted although nothing was written"
# --- demo
import portalocker

gate, files, run = dma(wait_lock_time_out=1)
with open(gate._order_csv, "a") as fp:
    portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)
    try:
        gate.order(sys_order("1"))
        failed = False
    except Exception:
        failed = True
check(failed, "the order was reported as submitted, the file holds %r" % open(gate._order_csv).read())
