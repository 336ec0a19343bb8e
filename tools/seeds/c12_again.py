PROPERTY = "C12"
EDITS = [("jqtrade/account/account.py", """            logger.info(f"提交撤单，被撤订单id：{order_id}")
""", """            if self._orders[order_id].status == OrderStatus.canceling:
                logger.info(f"撤单已提交，不再重复撤单，被撤订单id：{order_id}")
                return

            logger.info(f"提交撤单，被撤订单id：{order_id}，订单：{self._orders[order_id]}")
""")]
NEEDS = "a cancel request for an order the broker shows as being cancelled, as is needed when the first request got stuck"
BREAKS = "the request for a known order never reaches the trade gate"
# --- demo
seen = []
info = dict(order_id="7", code="000001.XSHE", price=10.0, amount=500, action="open", status="canceling", style="limit",
            create_time="2026-03-02 10:00:00", side="long", filled_amount=0, canceled_amount=0, deal_balance=0, avg_cost=0)
ctx = account(types.SimpleNamespace(sync_orders=lambda: [dict(info)], cancel_order=seen.append))
from jqtrade.account import api
api.sync_orders()
api.cancel_order(7)
check(seen == ["7"], "cancel requests sent: %s" % seen)
