PROPERTY = "C08"
EDITS = [("jqtrade/account/order.py", "            and self._canceled_amount == other.canceled_amount\n", "")]
NEEDS = "an order report that differs from the known order in nothing but the cancelled quantity"
BREAKS = "the query keeps showing the old cancelled quantity"
# --- demo
info = dict(order_id="7", code="000001.XSHE", price=10.0, amount=500, action="open", status="canceling", style="limit",
            create_time="2026-03-02 10:00:00", side="long", filled_amount=100, canceled_amount=0, deal_balance=1000.0, avg_cost=10.0)
gate = types.SimpleNamespace(sync_orders=lambda: [dict(info)])
ctx = account(gate)
from jqtrade.account import api
api.sync_orders()
info["canceled_amount"] = 300
api.sync_orders()
got = api.get_orders()["7"].canceled_amount
check(got == 300, "cancelled quantity reported 300, shown %s" % got)
