PROPERTY = "C01"
EDITS = [("jqtrade/scheduler/event_source.py", """        if dt < self._start:
            return

        if self._end""", """        if dt < (self._start if self._end or config.ENABLE_HISTORY_START or day == self._start.date() else datetime.datetime.now()):
            return

        if self._end""")]
NEEDS = "an occurrence on a later day that is already overdue when its day is reached, as after a task that runs past midnight"
BREAKS = "the overdue occurrences of the new day are dropped"
# --- demo
import jqtrade.scheduler.event_source as es
from jqtrade.scheduler.event import create_event_class


class FakeNow(datetime.datetime):
    t = datetime.datetime(2026, 3, 2, 20, 0, 0)

    @classmethod
    def now(cls, tz=None):
        return cls.t


class FakeDate(datetime.date):
    @classmethod
    def today(cls):
        return FakeNow.t.date()


es.datetime = types.SimpleNamespace(datetime=FakeNow, date=FakeDate, time=datetime.time, timedelta=datetime.timedelta)
es.config.EVENT_DAYS_COUNT = 1
s = es.EventSource()
s.setup()
s.daily(create_event_class("Demo"), "21:00:00")
s.daily(create_event_class("Demo2"), "00:10:00")
first = s.get_next_event()
check(first and first[0].hour == 21, "first occurrence %s" % (first,))
FakeNow.t = datetime.datetime(2026, 3, 3, 1, 0, 0)        # the task ran until one o'clock of the next day
second = s.get_next_event()
check(second and (second[0].day, second[0].hour, second[0].minute) == (3, 0, 10), "the overdue occurrence at 00:10 is lost, next is %s" % (second,))
