PROPERTY = "C20"
EDITS = [("jqtrade/scheduler/bus.py", """            if not isinstance(event, _event_cls):
""", """            if _event_cls not in (type(event),) + type(event).__bases__:
""")]
NEEDS = "an event class two steps below the one subscribed to"
BREAKS = "the subscription to the more general class is not delivered to"
# --- demo
from jqtrade.scheduler.bus import EventBus
from jqtrade.scheduler.event import Event


class A(Event):
    pass


class B(A):
    pass


class C(B):
    pass


got = []
bus = EventBus()
bus.register(A, lambda e: got.append("A"))
bus.register(Event, lambda e: got.append("Event"))
for cls, want in [(A, ["A", "Event"]), (B, ["A", "Event"]), (C, ["A", "Event"])]:
    del got[:]
    bus.emit(cls())
    check(got == want, "%s was delivered to %s" % (cls.__name__, got))
