PROPERTY = "C20"
EDITS = [("jqtrade/scheduler/message.py", "        return self.time, -self.priority, self.seq_number\n", "        return self.time, -self.priority, str(self.seq_number)\n")]
NEEDS = "two messages of one time and priority whose numbers have different lengths (the ninth and the tenth, the 99th and the 100th)"
BREAKS = "the message created later is taken off first"
# --- demo
from jqtrade.scheduler.queue import ThreadSafeQueue
from jqtrade.scheduler.message import Message
q = ThreadSafeQueue()
made = []
for i in range(1200):
    m = Message(time=5000, callback=lambda: None)
    made.append(m)
    q.push(m, m.sort_key)
got = [q.pop() for _ in made]
check(all(a is b for a, b in zip(got, made)), "messages of one time and priority are not taken off in the order they were created")
