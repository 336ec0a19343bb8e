"""Child side of the writers scenarios: real strategies with the built-in gate, each asking this controller before every step on the shared files."""
import fcntl
import json
import os
import random
import select
import sys
import time

import rt
import c_gate
from c_acct import text

JOB = None
D = None
ME = None
REQ = GRANT = -1


# ------------------------------------------------------------------ a strategy
def serve(g, op, ids):
    """one request; what was asked for, what came back, how long it took"""
    t0 = rt.L.vt_now()
    if op[0] == "cancel":
        i = ids[op[1] % len(ids)] if ids else "none"
        try:
            g["cancel_order"](i)
            ret = "?"
        except Exception as e:
            ret = "raised " + repr(e)
        want = {"id": i, "type": "", "acct": "", "symbol": "", "side": "", "qty": "", "algo": "", "ptype": "", "high": "", "low": "", "cols": 2}
        return {"w": ME, "f": "cancel", "ret": ret, "want": want, "ms": (rt.L.vt_now() - t0) // 10**6, "st": ""}
    o = op[1]
    before = set(g["get_orders"]())
    kw = {}
    if o["style"][0] == "limit":
        kw["style"] = g["LimitOrderStyle"](o["style"][1])
    elif o["style"][0] == "market":
        kw["style"] = g["MarketOrderStyle"](*o["style"][1:])
    try:
        ret = g["order"](o["code"], o["amount"], **kw)
    except Exception as e:
        ret = "raised " + repr(e)
    ms = (rt.L.vt_now() - t0) // 10**6
    after = g["get_orders"]()
    fresh = [k for k in after if k not in before]
    b = c_gate.requested(o)
    i = ret if isinstance(ret, str) else fresh[0] if fresh else "none"
    if isinstance(ret, str) and not ret.startswith("raised"):
        ids.append(ret)
    want = {"id": i, "type": JOB["opts"].get("counter_type", "UM0"), "acct": str(JOB["opts"]["account_no"]) + str(ME),
            "symbol": o["code"].replace("XSHE", "SZ").replace("XSHG", "SH"), "side": "1" if b["act"] == "open" else "2", "qty": str(b["amt"]),
            "algo": JOB["opts"].get("algo_type", "DMA"), "ptype": "AT" if b["style"] == "limit" else "P6" if b["act"] == "open" else "P7",
            "high": b["price"] if b["style"] == "limit" else c_gate.num(0.0), "low": b["price"] if b["style"] == "limit" else c_gate.num(0.0), "cols": 12}
    return {"w": ME, "f": "order", "ret": ret if isinstance(ret, str) else "" if ret is None else repr(ret), "want": want, "ms": ms,
            "st": text(after[fresh[0]].status) if fresh else ""}


def tick(context, g):
    rt.L.vt_fs_off()
    ids = []
    out = []
    while True:
        os.write(REQ, ("idle - %d %s\n" % (rt.L.vt_now(), json.dumps(out))).encode())
        msg = b""
        while not msg.endswith(b"\n"):
            c = os.read(GRANT, 1)
            if not c:
                os._exit(0)
            msg += c
        cmd = json.loads(msg)
        if cmd == "stop":
            os._exit(0)
        rt.L.vt_set(cmd["clock"])
        out = []
        rt.L.vt_fs_sched(os.path.join(D, "w", "orders").encode(), REQ, GRANT)
        for op in cmd["ops"]:
            out.append(serve(g, op, ids))
        rt.L.vt_fs_off()


def strategy(w, req, grant):
    global ME, REQ, GRANT
    ME, REQ, GRANT = w, req, grant
    sys.modules["c_writers"] = sys.modules[__name__]
    rt.fake_psutil()
    rt.start_clock(*JOB["day0"])
    rt.L.vt_enable(rt.at(35990))
    o = dict(JOB["opts"])
    o.update(account_no=str(o["account_no"]) + str(w), runtime_dir=os.path.join(D, "w", "rt"), order_dir=os.path.join(D, "w", "orders"), use_account=True,
             sync_balance=False, sync_order=False, file_encoding=JOB.get("coding", "utf-8"))
    d = os.path.join(D, "s%d" % w)
    os.makedirs(d)
    code = os.path.join(d, "strat.py")
    with open(code, "w") as fp:
        fp.write("import c_writers\n\n\ndef f(context):\n    c_writers.tick(context, globals())\n\n\ndef process_initialize(context):\n"
                 f"    set_options(**{o!r})\n    run_daily(f, '10:00:00')\n")
    # the steps of starting are scheduled as well
    rt.L.vt_fs_sched(os.path.join(D, "w").encode(), REQ, GRANT)
    rt.cli("start_task", "-n", "w%d" % w, "-c", code, "-o", os.path.join(d, "out.log"))


# ------------------------------------------------------------------ the controller
class Writer:
    def __init__(self, w):
        self.w = w
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a)
            os.close(d)
            try:
                strategy(w, b, c)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(97)
        os.close(b)
        os.close(c)
        self.req, self.grant = a, d
        self.buf = b""
        self.pending = None       # (op, path, ns, rest)
        self.clock = 0
        self.dead = False

    def poll(self, timeout):
        """the writer's next request, if it comes in time"""
        end = time.monotonic() + timeout
        while self.pending is None and not self.dead:
            if b"\n" in self.buf:
                ln, self.buf = self.buf.split(b"\n", 1)
                p = ln.decode().split(" ", 3)
                self.pending = (p[0], p[1], int(p[2]), p[3] if len(p) > 3 else "")
                self.clock = self.pending[2]
                break
            left = end - time.monotonic()
            if left < 0 or not select.select([self.req], [], [], left)[0]:
                break
            c = os.read(self.req, 65536)
            if not c:
                self.dead = True
            self.buf += c
        return self.pending

    def go(self, data=b"g"):
        self.pending = None
        os.write(self.grant, data)


class Hold:
    """somebody else's lock on a file, of either kind that locking libraries use"""
    def __init__(self, path, mode):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o644)
        m = fcntl.LOCK_SH if mode == "sh" else fcntl.LOCK_EX
        fcntl.flock(self.fd, m | fcntl.LOCK_NB)
        fcntl.lockf(self.fd, m | fcntl.LOCK_NB)

    def release(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None


def path(f):
    return c_gate.path(f, "%04d%02d%02d" % tuple(JOB["day0"]))


def content(f):
    p = path(f)
    return open(p, "rb").read() if os.path.exists(p) else b""


def describe(f, before, after):
    cod = JOB.get("coding", "utf-8")
    x = {"intact": False, "was": before.count(b"\n"), "heads": [], "lines": []}
    try:
        all_lines = after.decode(cod).replace("\r\n", "\n").split("\n")
    except UnicodeDecodeError:
        return x
    x["intact"] = after.startswith(before) and all_lines[-1] == "" and all(all_lines[:-1])
    x["heads"] = [k + 1 for k, ln in enumerate(all_lines) if ln == c_gate.HEAD[f]]
    x["lines"] = [c_gate.cells(f, ln) for k, ln in enumerate(all_lines) if ln and k >= x["was"] and ln != c_gate.HEAD[f]]
    return x


class Schedule:
    """which of the writers that may go goes next"""
    def __init__(self, spec):
        self.spec = spec
        self.n = 0
        self.rng = random.Random(spec.get("seed", 0))
        self.prefix, self.choices = [], []

    def start(self):
        self.n = 0
        self.choices = []

    def pick(self, ready):
        k = self.spec["kind"]
        if k == "dfs":
            if len(ready) == 1:
                return ready[0]
            c = self.prefix[self.n] if self.n < len(self.prefix) else 0
            self.choices.append((c, len(ready)))
            self.n += 1
            return ready[c % len(ready)]
        if k == "script":
            s = self.spec["script"]
            while self.n < len(s):
                w = s[self.n] - 1
                self.n += 1
                for x in ready:
                    if x.w == w:
                        return x
            return self.rng.choice(ready)
        if k == "stall":           # one writer stands still at its n-th step until the others are through
            others = [x for x in ready if x.w != self.spec["w"]]
            mine = [x for x in ready if x.w == self.spec["w"]]
            if mine and (self.n < self.spec["n"] or not others):
                self.n += 1
                return mine[0]
            return self.rng.choice(others or mine)
        if k == "runs":            # stretches of one writer
            if ready and getattr(self, "last", None) in ready and self.rng.random() < .7:
                return self.last
            self.last = self.rng.choice(ready)
            return self.last
        return self.rng.choice(ready)

    def next(self):
        """dfs: the next prefix in order, or None"""
        c = self.choices[:]
        while c and c[-1][0] + 1 >= c[-1][1]:
            c.pop()
        if not c:
            return False
        self.prefix = [x for x, _ in c[:-1]] + [c[-1][0] + 1]
        return True


def round_(writers, rd, sched, clock):
    if not rd.get("keep"):
        for f in ("order", "cancel"):
            if os.path.exists(path(f)):
                os.unlink(path(f))
    if rd.get("empty"):
        open(path(rd["empty"]), "a").close()
    before = {f: content(f) for f in ("order", "cancel")}
    h = rd.get("hold") or {"kind": "none", "f": "order", "ms": 0}
    hold = Hold(path(h["f"]), h.get("mode", "ex")) if h["kind"] != "none" else None
    sched.start()
    steps = []
    hung = False
    for x in writers:
        x.go((json.dumps({"ops": rd["ops"][x.w], "clock": clock}) + "\n").encode())
    todo = set(writers)
    quiet = 0
    skew = rd.get("skew")
    # far more than any waiting for a lock takes
    limit = 3000 + sum(len(o) for o in rd["ops"]) * 40 * int(JOB["opts"].get("wait_lock_time_out", 5) / JOB["opts"].get("wait_lock_internal", 0.05))
    while todo:
        for x in list(todo):
            x.poll(20 if not quiet else 0.3)
            if x.dead:
                return {"dead": x.w}
            if x.pending and x.pending[0] == "idle":
                todo.discard(x)
        ready = sorted([x for x in todo if x.pending], key=lambda x: x.w)
        if hold and h["kind"] == "until" and ready and min(x.clock for x in ready) >= clock + h["ms"] * 10**6:
            hold.release()
        if not todo:
            break
        if not ready:
            quiet += 1
            if quiet > 8:
                hung = True
                if hold:
                    hold.release()
                if quiet > 20:
                    return {"dead": "all"}
            continue
        if skew is not None:
            low = min(x.clock for x in ready)
            ready = [x for x in ready if x.clock <= low + skew * 10**6]
        x = sched.pick(ready)
        steps.append([x.w, x.pending[0]])
        if len(steps) > limit:
            return {"dead": "endless"}
        x.go()
        if x.poll(2) is None and not x.dead:     # blocked in a system call, or slow
            quiet = 1
    if hold:
        hold.release()
    ops = []
    for x in writers:
        ops += json.loads(x.pending[3] or "[]")
    iv = JOB["opts"].get("wait_lock_internal", 0.05)
    rec = {"ops": ops, "fair": skew is not None, "timeout": int(JOB["opts"].get("wait_lock_time_out", 5) * 1000), "interval": int(iv * 1000), "hung": hung,
           "hold": {"kind": h["kind"], "f": h["f"], "ms": h.get("ms", 0)},
           "files": {f: describe(f, before[f], content(f)) for f in ("order", "cancel")}}
    return {"rec": rec, "steps": steps, "clock": max(x.clock for x in writers)}


def main(job, d):
    global JOB, D
    JOB, D = job, d
    c_gate.JOB, c_gate.D = job, d
    rt.open_trace(d)
    os.makedirs(os.path.join(d, "w", "orders"))
    if job.get("dirs"):
        os.makedirs(os.path.join(d, "w", job["dirs"]))
    ws = [Writer(w) for w in range(job["n"])]
    s = Schedule(job.get("start") or {"kind": "random", "seed": 1})
    n = 0
    while True:
        for x in ws:
            if not x.poll(60) or x.dead:
                rt.emit(e="problem", what=f"writer {x.w} did not start")
                return 0
        ready = [x for x in ws if x.pending[0] != "idle"]
        if not ready:
            break
        s.pick(ready).go()
        n += 1
    rt.emit(e="start", n=n)
    clock = rt.L.vt_now() if rt.L.vt_now() else max(x.clock for x in ws)
    clock = max(x.clock for x in ws)
    # every strategy gets an order of its own to cancel
    warm = {"ops": [[["order", {"code": "000001.XSHE", "amount": 100, "style": ["limit", 1.0]}]] for _ in ws], "skew": 120}
    todo = [(warm, {"kind": "random", "seed": 1})] + [(r, r["sched"]) for r in job["rounds"]]
    end = time.monotonic() + job.get("budget", 90)
    for rd, spec in todo:
        if time.monotonic() > end:
            rt.emit(e="cut")
            break
        s = Schedule(spec)
        n = 0
        while True:
            r = round_(ws, rd, s, clock)
            n += 1
            if "dead" in r:
                rt.emit(e="problem", what=f"writer {r['dead']} died or stopped")
                return 0
            clock = r["clock"]
            rt.emit(e="round", rec=r["rec"], sched=[w for w, _ in r["steps"]], steps=len(r["steps"]), ops=sorted({o for _, o in r["steps"]}), n=n)
            if r["rec"]["hung"]:
                return 0
            if spec["kind"] != "dfs" or n >= spec["max"] or time.monotonic() > end or not s.next():
                if spec["kind"] == "dfs":
                    rt.emit(e="dfs", n=n, complete=not (n >= spec["max"] or time.monotonic() > end))
                break
    for x in ws:
        x.go(b'"stop"\n')
        os.waitpid(x.pid, 0)
    rt.emit(e="end")
    return 0
