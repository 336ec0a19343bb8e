PROPERTY = "C03"
EDITS = [("jqtrade/scheduler/strategy.py", """                    _current_dt = _start_dt
                    while _current_dt <= _end_dt:
                        _time = _current_dt""", """                    _current_dt = _start_dt.replace(second=0)
                    while _current_dt <= _end_dt:
                        _time = _current_dt""")]
NEEDS = "a trading period that starts at a second other than zero"
BREAKS = "every_minute runs at whole minutes of the clock, the first time before the period starts"
# --- demo
from jqtrade.scheduler.context import Context
from jqtrade.scheduler.strategy import Strategy
from jqtrade.scheduler.bus import EventBus
import jqtrade.scheduler.strategy as st
times = []


class Source(object):
    def __init__(self, *a, **k): pass
    def setup(self): pass
    def daily(self, cls, expr): times.append(expr)


st.EventSource = Source


def process_initialize(context):
    mod.set_options(use_account=False, runtime_dir=SCRATCH, market_period=[("09:30:30", "09:33:30")])
    mod.run_daily(job, "every_minute")


def job(context): pass


mod = types.ModuleType("m")
mod.process_initialize = process_initialize
ctx = Context("demo", EventBus(), Loop(), types.SimpleNamespace(schedule=lambda s: None), types.SimpleNamespace(load=lambda: mod), False, None, None)
Strategy(ctx).setup()
check(times == ["09:30:30", "09:31:30", "09:32:30", "09:33:30"], "every_minute gives %s" % times)
