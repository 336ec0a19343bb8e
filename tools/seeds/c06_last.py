PROPERTY = "C06"
EDITS = [("jqtrade/account/account.py", """                current = _start_dt
                while current <= _end_dt:
""", """                current = _start_dt
                while current < _end_dt:
""")]
NEEDS = "a synchronisation period whose length is a multiple of the interval"
BREAKS = "the synchronisation at the end of the period, which belongs to it, does not take place"
# --- demo
from jqtrade.scheduler.bus import EventBus
import jqtrade.scheduler.event_source as es
from jqtrade.scheduler.context import Context
from jqtrade.account.account import Account
times = []


class Source(object):
    def __init__(self, *a, **k): pass
    def setup(self): pass
    def daily(self, cls, expr): times.append(expr)


es.EventSource = Source
ctx = Context("demo", EventBus(), Loop(), types.SimpleNamespace(schedule=lambda s: None), None, False, None, None)
ctx.use_account = True
ctx.trade_gate = types.SimpleNamespace(setup=lambda o: None, sync_balance=lambda: {}, sync_orders=lambda: [])
Account(ctx).setup({"sync_internal": 10, "sync_period": [(datetime.time(9, 30), datetime.time(9, 31))]})
check(len(times) == 7 and times[0] == "09:30:00" and times[-1] == "09:31:00", "synchronisations at %s" % times)
