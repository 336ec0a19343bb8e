PROPERTY = "C06"
EDITS = [("jqtrade/account/account.py", """        except Exception as e:
            logger.exception(f"同步订单失败，error={e}")
""", """        except (AttributeError, LookupError, OSError, TypeError, ValueError) as e:
            logger.exception(f"同步订单失败，error={e}")
""")]
NEEDS = "an order synchronisation that fails with an error class of the trade gate's own"
BREAKS = "the failing synchronisation ends the process"
# --- demo
class AnError(Exception):
    pass


def fails():
    raise AnError("no connection")


ctx = account(types.SimpleNamespace(sync_orders=fails))
from jqtrade.account import api
try:
    api.sync_orders()
except AnError as e:
    check(False, "the failed synchronisation raised %r" % e)
