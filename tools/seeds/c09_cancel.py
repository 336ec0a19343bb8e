PROPERTY = "C09"
EDITS = [("jqtrade/account/account.py", """            self._ctx.trade_gate.cancel_order(order_id)
""", """            local_order = self._orders[order_id]
            self._ctx.trade_gate.cancel_order(local_order.order_id)
            if not local_order.has_finished():
                local_order._status = OrderStatus.canceling
""")]
NEEDS = "an order object kept by the strategy while it cancels that order"
BREAKS = "the kept object shows another status after the cancel request"
# --- demo
ctx = account(types.SimpleNamespace(order=lambda o: None, cancel_order=lambda i: None))
from jqtrade.account import api
i = api.order("000001.XSHE", 100)
old = api.get_orders()[i]
check(old.status == "new", "a fresh order shows %s" % old.status)
api.cancel_order(i)
check(old.status == "new", "the kept object shows %s after the cancel request" % old.status)
