PROPERTY = "C05"
EDITS = [("jqtrade/scheduler/strategy.py", """        if not self._is_scheduler_allowed:
            raise InvalidCall("set_options只能在process_initialize中调用")

""", ""), ("jqtrade/scheduler/strategy.py", """        # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
""", """        if not self._is_scheduler_allowed:
            raise InvalidCall("set_options只能在process_initialize中调用")

        # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
""")]
NEEDS = "set_options called by a task, and a task at a time relative to open or close on a later day"
BREAKS = "the refused options have replaced the accepted ones all the same; from the next day on tasks run at the wrong time"
# --- demo
from jqtrade.scheduler.context import Context
from jqtrade.scheduler.strategy import Strategy
from jqtrade.scheduler.event_source import EventSource
from jqtrade.scheduler.event import create_event_class


def init(context):
    mod.set_options(use_account=False, market_period=[("09:00:00", "15:00:00")])


mod = types.ModuleType("demomod")
mod.process_initialize = init
ctx = Context("demo", None, types.SimpleNamespace(), None, types.SimpleNamespace(load=lambda: mod), False, None, None)
Context._instance = ctx
s = Strategy(ctx)
s.setup()
try:
    mod.set_options(use_account=False, market_period=[("21:00:00", "23:00:00")])
    check(False, "set_options outside the initialisation is accepted")
except Exception as e:
    check("set_options" in str(e), "refused with %r" % e)
d = datetime.date(2026, 3, 3)
at = EventSource.expr_to_time(d, "open+5m")
check(at == datetime.datetime(2026, 3, 3, 9, 5), "open+5m is now %s" % at)
