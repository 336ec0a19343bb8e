PROPERTY = "C08"
EDITS = [("jqtrade/account/api.py", """    if code:
        orders = [o for o in orders if o.code == code]
""", """    elif code:
        orders = [o for o in orders if o.code == code]
""")]
NEEDS = "a query that gives both an order id and a code, of another order"
BREAKS = "the order is returned although it has another code"
# --- demo
info = lambda i, code: dict(order_id=i, code=code, price=10.0, amount=500, action="open", status="open", style="limit",
                            create_time="2026-03-02 10:00:00", side="long", filled_amount=0, canceled_amount=0, deal_balance=0, avg_cost=0)
ctx = account(types.SimpleNamespace(sync_orders=lambda: [info("7", "000001.XSHE"), info("8", "600000.XSHG")]))
from jqtrade.account import api
api.sync_orders()
check(sorted(api.get_orders()) == ["7", "8"], "orders %s" % api.get_orders())
check(sorted(api.get_orders(order_id="7", code="600000.XSHG")) == [], "the query gives %s" % api.get_orders(order_id="7", code="600000.XSHG"))
check(sorted(api.get_orders(order_id="8", code="600000.XSHG")) == ["8"], "the query gives %s" % api.get_orders(order_id="8", code="600000.XSHG"))
