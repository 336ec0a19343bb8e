PROPERTY = "C11"
EDITS = [("jqtrade/account/account.py", """            self._ctx.trade_gate.order(order_obj)
            self.on_order_created(order_obj)
            return order_id
""", """            self.on_order_created(order_obj)
            self._ctx.trade_gate.order(order_obj)
            return order_id
""")]
NEEDS = "a sell order that the trade gate refuses"
BREAKS = "the refused order lowers the closeable quantity"
# --- demo
class Gate(object):
    bad = True
    def setup(self, o): pass
    def sync_balance(self):
        return {"cash": {"total_asset": 1, "available_cash": 1, "locked_cash": 0},
                "positions": [dict(code="000001.XSHE", amount=500, available_amount=500, avg_cost=1.0, side="long")]}
    def order(self, o):
        if self.bad:
            raise OSError("refused")


g = Gate()
ctx = account(g)
from jqtrade.account import api
api.sync_balance()
api.order("000001.XSHE", -200)
left = ctx.portfolio.long_positions["000001.XSHE"].closeable_amount
check(left == 500, "closeable quantity %s after a refused order" % left)
g.bad = False
api.order("000001.XSHE", -200)
left = ctx.portfolio.long_positions["000001.XSHE"].closeable_amount
check(left == 300, "closeable quantity %s after an accepted order" % left)
