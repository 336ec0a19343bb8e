PROPERTY = "C11"
EDITS = [("jqtrade/account/account.py", """            pos = self._long_positions.get(order.code)
        else:
            pos = self._short_positions.get(order.code)
""", """            pos = self._long_positions.get(order.code)
        else:
            pos = self._short_positions.get(order.code) or self._long_positions.get(order.code)
""")]
NEEDS = "a sell order of the short side for a security that is held long only"
BREAKS = "the closeable quantity of the long holding is lowered"
# --- demo
class Gate(object):
    def setup(self, o): pass
    def order(self, o): pass
    def sync_balance(self):
        return {"cash": {"total_asset": 1, "available_cash": 1, "locked_cash": 0},
                "positions": [dict(code="000001.XSHE", amount=500, available_amount=500, avg_cost=1.0, side="long")]}


ctx = account(Gate())
from jqtrade.account import api
api.sync_balance()
api.order("000001.XSHE", -200, side="short")
left = ctx.portfolio.long_positions["000001.XSHE"].closeable_amount
check(left == 500, "closeable quantity %s of the long holding after an order for the short one" % left)
api.order("000001.XSHE", -200)
left = ctx.portfolio.long_positions["000001.XSHE"].closeable_amount
check(left == 300, "closeable quantity %s after an order for it" % left)
