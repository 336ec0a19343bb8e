PROPERTY = "C09"
EDITS = [("jqtrade/account/account.py", """                else:
                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)
""", """                else:
                    self.on_order_updated(_local_order, _remote_order)
                    if _local_order.has_finished():
                        self._orders[_order_id] = _remote_order
                    else:
                        _local_order.__dict__.update(_remote_order.__dict__)
""")]
NEEDS = "an order object kept by the strategy across a synchronisation that changes the order"
BREAKS = "the kept object changes along with the order"
# --- demo
info = dict(order_id="7", code="000001.XSHE", price=10.0, amount=500, action="open", status="open", style="limit",
            create_time="2026-03-02 10:00:00", side="long", filled_amount=0, canceled_amount=0, deal_balance=0, avg_cost=0)
ctx = account(types.SimpleNamespace(sync_orders=lambda: [dict(info)]))
from jqtrade.account import api
api.sync_orders()
old = api.get_orders()["7"]
info.update(status="filled", filled_amount=500, deal_balance=5000.0, avg_cost=10.0)
api.sync_orders()
check((old.status, old.filled_amount) == ("open", 0), "the kept order now shows %s %s" % (old.status, old.filled_amount))
check(api.get_orders()["7"].status == "filled", "the fresh query does not show the new state")
