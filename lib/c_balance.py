"""Child side of the balance scenarios: one strategy with the built-in gate; the terminal's asset and position files are rewritten by this driver."""
import datetime
import os
import signal
import sys

import rt
from c_acct import num, text

JOB = None
D = None
NAMES = {"at": "assetInfo", "pt": "positionInfo"}
PLAN = []          # (ns, modification) still to come
rt.L.vt_swap_at_read.argtypes = [rt.ctypes.c_char_p, rt.ctypes.c_char_p, rt.ctypes.c_int]
rt.L.vt_swapped.restype = rt.LL


def path(f, d):
    day = datetime.datetime(*JOB["day0"]) + datetime.timedelta(days=d)
    return os.path.join(D, "w", "orders", f"{NAMES[f]}_{day:%Y%m%d}.csv")


def ms():
    return rt.L.vt_now() // 10**6 - rt.BASE * 1000


def put(m, w=None):
    """m: [f, day, state, version, data]"""
    p = path(m[0], m[1])
    if m[2] == "missing":
        if os.path.exists(p):
            os.unlink(p)
    else:
        data = JOB["data"][m[0]][m[3]].encode("latin1")[:m[4]] if m[4] is not None else JOB["data"][m[0]][m[3]].encode("latin1")
        if JOB.get("how") == "replace":
            with open(p + ".new", "wb") as fp:
                fp.write(data)
            os.replace(p + ".new", p)
        else:
            with open(p, "wb") as fp:
                fp.write(data)
    rt.emit(e="mod", w=ms() if w is None else w // 10**6 - rt.BASE * 1000, f=m[0], d=m[1], s=m[2], v=m[3])


def on_signal(*_):
    while PLAN and PLAN[0][0] <= rt.L.vt_now():
        w, m = PLAN.pop(0)       # (python runs the handler when the sleep is over)
        put(m, w)


def later(ns, m):
    PLAN.append((ns, m))
    PLAN.sort(key=lambda x: x[0])
    rt.L.vt_signal_at(ns, signal.SIGUSR1)


def view(context):
    p = context.portfolio
    return {"cash": {"tot": num(p.total_value), "free": num(p.available_cash), "lock": num(p.locked_cash)},
            "pos": [{"code": text(x.security) if x.security == k else "key " + text(k), "qty": str(x.total_amount), "avail": str(x.closeable_amount), "cost": num(x.avg_cost),
                     "last": num(x.last_price), "val": num(x.position_value), "side": getattr(x.side, "value", text(x.side))} for k, x in p.positions.items()],
            "short": len(p.short_positions)}


def do(context, g, op):
    k = op[0]
    if k == "put":
        put(op[1])
    elif k == "later":
        later(rt.L.vt_now() + op[1] * 10**6, op[2])
    elif k == "at":
        later(rt.at(op[1] // 1000, op[1] % 1000), op[2])
    elif k == "ms":
        rt.advance_ms(op[1])
    elif k == "sync":
        m = op[1] if len(op) > 1 else None
        if m:        # [f, day, k, version]: rewritten while being read
            src = os.path.join(D, "swap")
            with open(src, "wb") as fp:
                fp.write(JOB["data"][m[0]][m[3]].encode("latin1"))
            rt.L.vt_swap_at_read(path(m[0], m[1]).encode(), src.encode(), m[2])
        before = view(context)
        t0 = ms()
        try:
            g["sync_balance"]()
        except Exception as e:
            rt.emit(e="raised", what=f"{type(e).__name__}: {e}")
        t1 = ms()
        if m:
            w = rt.L.vt_swapped()
            rt.L.vt_swap_off()
            if w >= 0:
                rt.emit(e="mod", w=w // 10**6 - rt.BASE * 1000, f=m[0], d=m[1], s="ok", v=m[3], mid=True)
        rt.emit(e="sync", t0=t0, t1=t1, before=before, after=view(context), auto=False)


COUNT = 0


def tick(context, g):
    global COUNT
    n = COUNT
    COUNT += 1
    if JOB["auto"]:
        rt.emit(e="autoview", w=ms(), after=view(context))
    for op in JOB["calls"][n] if n < len(JOB["calls"]) else []:
        do(context, g, op)
    rt.emit(e="tick", n=n)


def main(job, d):
    global JOB, D
    JOB, D = job, d
    rt.open_trace(d)
    os.makedirs(os.path.join(d, "w", "orders"))
    sys.modules["c_balance"] = sys.modules[__name__]
    rt.fake_psutil()
    rt.start_clock(*job["day0"])
    rt.L.vt_enable(rt.at(job["start"]))
    rt.L.vt_set_end(rt.at(job["end"]))
    signal.signal(signal.SIGUSR1, on_signal)
    for m in job["first"]:
        put(m)
    for w, m in job.get("plan", []):
        later(rt.at(w // 1000, w % 1000), m)
    o = dict(job["opts"])
    o.update(runtime_dir=os.path.join(d, "w", "rt"), order_dir=os.path.join(d, "w", "orders"), use_account=True, sync_balance=job["auto"], sync_order=False)
    if job["auto"]:
        at = [datetime.time(t // 3600, t // 60 % 60, t % 60) for t in job["syncs"]]
        per = ", ".join(f"(datetime.{t!r}, datetime.{t!r})".replace("datetime.datetime", "datetime") for t in at)
        o_src = f"sync_period=[{per}], "
    else:
        o_src = ""
    src = "import c_balance\nimport datetime\n\n\ndef f(context):\n    c_balance.tick(context, globals())\n\n\ndef process_initialize(context):\n"
    for a in job.get("earlier", []):          # the last call is the one that counts
        src += f"    set_options(**{dict(o, sync_balance=False, **a)!r})\n"
    src += f"    set_options({o_src}**{o!r})\n    c_balance.rt.emit(e='start', view=c_balance.view(context), w=c_balance.ms())\n"
    for t in job["ticks"]:
        src += f"    run_daily(f, '{t // 3600:02}:{t // 60 % 60:02}:{t % 60:02}')\n"
    code = os.path.join(d, "strat.py")
    with open(code, "w") as fp:
        fp.write(src)
    rt.cli("start_task", "-n", "vtask", "-c", code, "-o", os.path.join(d, "out.log"))
    return 0
