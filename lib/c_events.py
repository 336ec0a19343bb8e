"""Driver (child side) for the bus, the queue under scheduled threads, and the event loop."""
import sys
import threading

import rt
from jqtrade.scheduler.bus import EventBus
from jqtrade.scheduler.event import Event, create_event_class
from jqtrade.scheduler.message import Message
from jqtrade.scheduler.queue import PriorityQueue, QueueEmptyError, ThreadSafeQueue
import jqtrade

ROOT = jqtrade.__path__[0]


# ---------------------------------------------------------------- bus
def bus(job):
    classes = []
    for i, (parent, how) in enumerate(job["classes"]):
        if parent:
            classes.append(type(f"K{i}", (classes[parent - 1],), {}))
        elif how == "named":
            classes.append(create_event_class(f"Named{i}"))
        elif how == "event":
            classes.append(Event)
        else:
            classes.append(type(f"K{i}", (Event,), {}))
    b = EventBus()
    state = {"emit": 0, "call": 0}
    cbs, held = {}, {}

    def make(k, how):
        def f(event):
            state["call"] += 1
            me = state["call"]
            rt.emit(e="call", id=cur[-1][0], cb=k, same=event is cur[-1][1])
            if me <= len(job["acts"]):
                for o in job["acts"][me - 1]:
                    do(o)
            return None if k % 3 == 0 else k
        if how == "method":
            class H:
                def on(self, event):
                    return f(event)
            h = H()
            return lambda: h.on            # a fresh bound method every time
        if how == "lambda":
            g = lambda event: f(event)
            return lambda: g
        return lambda: f
    cur = []

    def do(o):
        if o["k"] == "emit":
            state["emit"] += 1
            i = state["emit"]
            ev = classes[o["cls"] - 1]()
            cur.append((i, ev))
            rt.emit(e="emit", id=i, cls=o["cls"])
            try:
                b.emit(ev)
                ret = "ok"
            except Exception as x:
                ret = f"{type(x).__name__}: {x}"
            cur.pop()
            rt.emit(e="emitted", id=i, ret=ret)
            return
        an, have = job["anc"], held.setdefault(o["cb"], set())
        if o["k"] == "reg":
            if any((c in an[o["cls"] - 1] or o["cls"] in an[c - 1]) and (c != o["cls"] or o["pr"] == pr) for c, pr in have):
                return                     # one callback subscribed to related classes, or twice in the same way: no promise
            have.add((o["cls"], o["pr"]))
        else:
            held[o["cb"]] = {x for x in have if x[0] != o["cls"]}
        try:
            if o["k"] == "reg":
                if o["pr"] == 0 and o["cb"] % 2:
                    b.register(classes[o["cls"] - 1], cbs[o["cb"]]())
                else:
                    b.register(classes[o["cls"] - 1], cbs[o["cb"]](), priority=o["pr"])
            else:
                b.unregister(classes[o["cls"] - 1], cbs[o["cb"]]())
            ret = "ok"
        except Exception as x:
            ret = f"{type(x).__name__}: {x}"
        rt.emit(e=o["k"], cls=o["cls"], cb=o["cb"], pr=o["pr"], ret=ret)
    for k, how in enumerate(job["cbs"]):
        cbs[k + 1] = make(k + 1, how)
    for o in job["ops"]:
        do(o)


# ---------------------------------------------------------------- queue under scheduled threads
class Steps:
    """runs threads one source line of the code under test at a time, in a given order"""

    def __init__(self, n, order, quantum=0.004):
        self.n, self.order, self.quantum = n, list(order), quantum
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.arr = []
        self.cv = threading.Condition()
        self.state = ["new"] * n
        self.steps = 0
        self.local = threading.local()

    def arrive(self, i, s):
        with self.cv:
            self.state[i] = s
            self.cv.notify()

    def point(self, i):
        self.arrive(i, "ready")
        self.go[i].acquire()

    def trace(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        return self.line

    def line(self, frame, ev, arg):
        if ev == "line":
            self.point(self.local.i)
        return self.line

    def body(self, i, fn):
        self.local.i = i
        self.point(i)
        sys.settrace(self.trace)
        try:
            fn()
        finally:
            sys.settrace(None)
            self.arrive(i, "done")

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        with self.cv:
            self.cv.wait_for(lambda: all(s == "ready" for s in self.state), 10)
        cur = 0
        stuck = 0
        while True:
            ready = [i for i in range(self.n) if self.state[i] == "ready"]
            if not ready:
                if all(s == "done" for s in self.state):
                    break
                with self.cv:
                    if not self.cv.wait_for(lambda: any(s == "ready" for s in self.state) or all(s == "done" for s in self.state), 2):
                        return False
                continue
            want = self.order[self.steps] if self.steps < len(self.order) else cur
            self.steps += 1
            if want not in ready:
                want = ready[0] if cur not in ready else cur
            cur = want
            with self.cv:
                self.state[cur] = "running"
            self.go[cur].release()
            with self.cv:
                self.cv.wait_for(lambda: self.state[cur] != "running", self.quantum)
        for t in ts:
            t.join(2)
        return True


def lin(job):
    for run in job["runs"]:
        q = ThreadSafeQueue() if run["safe"] else PriorityQueue()
        hist = []
        msgs = {}
        ids = {}

        def op(th, o):
            k, mid = o[0], o[1] if len(o) > 1 else 0
            hist.append({"k": "inv", "th": th, "op": k, "id": mid, "t": o[2] if len(o) > 2 else 0, "p": o[3] if len(o) > 3 else 0})
            ret = 0
            try:
                if k == "new":
                    m = Message(o[2] + run["base"], callback=len, priority=o[3])
                    msgs[mid] = m
                    ids[id(m)] = mid
                elif k == "push":
                    q.push(msgs[mid], msgs[mid].sort_key)
                elif k in ("pop", "top"):
                    try:
                        m = getattr(q, k)()
                        ret = ids.get(id(m), -2)
                    except QueueEmptyError:
                        ret = 0
                elif k == "empty":
                    ret = 1 if q.empty() else 0
            except Exception as x:
                ret = -1
                rt.emit(e="note", what=f"{k}: {type(x).__name__}: {x}")
            hist.append({"k": "res", "th": th, "ret": ret})
        for o in run["pre"]:
            op(1, o)
        fns = [lambda i=i, p=p: [op(i + 2, o) for o in p] for i, p in enumerate(run["progs"])]
        s = Steps(len(fns), run["order"])
        ok = s.run(fns) if fns else True
        if ok:
            n = sum(1 for x in hist if x.get("op") == "push")
            for _ in range(n + 1):
                op(1, ["pop"])
                if hist[-1]["ret"] == 0:
                    break
            op(1, ["empty"])
        rt.emit(e="hist", ok=ok, steps=s.steps, ev=hist)


# ---------------------------------------------------------------- loop
class Boom(Exception):
    pass


def loop(job):
    from jqtrade.scheduler.loop import EventLoop
    if job["real"]:
        return loop_real()
    rt.start_clock(*job["start"])
    rt.L.vt_set_end(rt.at(3 * 86400))
    base = rt.BASE * 1000

    def ms():
        w, m = rt.now()
        return w * 1000 + m
    L = EventLoop()
    known = {}
    boom = Boom("planned")

    def act(a):
        k = a["k"]
        if k == "push":
            known[a["id"]] = a
            m = Message(base + a["t"], callback=cb(a["id"]), callback_data={"mid": a["id"]} if a["data"] else None, priority=a["p"])
            rt.emit(e="push", id=a["id"], t=a["t"], p=a["p"], w=ms())
            if a["thread"]:
                t = threading.Thread(target=L.push_message, args=(m,))
                t.start()
                t.join()
            else:
                L.push_message(m)
        elif k == "defer":
            known[a["id"]] = dict(a, data=True)
            rt.emit(e="defer", id=a["id"], d=a["d"], w=ms())
            L.defer(a["d"], cb(a["id"]), mid=a["id"])
        elif k == "stop":
            rt.emit(e="stop", w=ms())
            L.stop()
        elif k == "fail":
            rt.emit(e="fail", w=ms())
            raise boom
        elif k == "spend":
            rt.advance_ms(a["d"])

    def cb(i):
        def f(mid=None):
            s, sm = rt.rel(L.strategy_dt)
            rt.emit(e="h", id=i, s=s * 1000 + sm, w=ms(), ok=(mid == i) == bool(known[i]["data"]))
            for a in job["acts"].get(str(i), []):
                act(a)
            rt.emit(e="hx", id=i, w=ms())
        return f
    if job["limit"] >= 0:
        L.register_exit_checker(lambda now, ts: False)
        L.register_exit_checker(lambda now, ts: ts > base + job["limit"])
    for a in job["first"]:
        act(a)
    try:
        L.run()
        how = "normal"
    except Boom as x:
        how = "error" if x is boom else "othererror"
    except Exception as x:
        how = f"{type(x).__name__}: {x}"
    rt.emit(e="end", how=how, w=ms())


def loop_real():
    """a message from another thread wakes a loop that waits for a later message"""
    import time
    from jqtrade.scheduler.loop import EventLoop
    L = EventLoop()
    t0 = time.time()
    got = []
    L.push_message(Message(t0 * 1000 + 60000, callback=lambda: got.append("late")))

    def feed():
        time.sleep(.15)
        L.push_message(Message(time.time() * 1000, callback=lambda: got.append(["now", time.time() - t0])))
        time.sleep(.3)
        L.push_message(Message(time.time() * 1000, callback=L.stop))
    t = threading.Thread(target=feed)
    t.start()
    L.run()
    t.join()
    rt.emit(e="real", got=got, took=time.time() - t0)


def main(job, d):
    rt.open_trace(d)
    {"bus": bus, "lin": lin, "loop": loop}[job["kind"]](job)
    return 0
