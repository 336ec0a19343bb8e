PROPERTY = "C12"
EDITS = [("jqtrade/account/account.py", """        except Exception as e:
            logger.exception(f"内部撤单异常，order_id={order_id}, error={e}")
            return
""", """        except (ValueError, RuntimeError, OSError) as e:
            logger.exception(f"内部撤单异常，order_id={order_id}, error={e}")
            return
""")]
NEEDS = "a trade gate that refuses a cancellation with an error of another kind (a lookup error, a time-out of the framework, an error class of its own)"
BREAKS = "the refusal raises into the strategy and the rest of a batch is not cancelled"
# --- demo
seen = []


def cancel(i):
    seen.append(i)
    if i == ids[0]:
        raise KeyError(i)


ctx = account(types.SimpleNamespace(order=lambda o: None, cancel_order=cancel))
from jqtrade.account import api
ids = [api.order("000001.XSHE", 100) for _ in range(3)]
try:
    api.batch_cancel_orders(ids)
except Exception as e:
    check(False, "the refusal raised %r" % e)
check(seen == ids, "cancel requests %s for %s" % (seen, ids))
