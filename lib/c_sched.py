"""Child side of the scheduler scenarios: runs one strategy process through the command line entry, in virtual time."""
import os
import sys

import rt

PLAN = None
DIR = None
NCALL = {}
ERR = None


class TaskFailure(Exception):
    pass


class OddFailure(RuntimeError):
    def __init__(self, a, b):
        super().__init__(a, b)


class FalsyFailure(Exception):
    """collects errors; none so far"""
    def __len__(self):
        return 0


class MuteFailure(Exception):
    def __str__(self):
        return 5


class FrozenFailure(Exception):
    def __init__(self, code):
        self.__dict__["code"] = code

    def __setattr__(self, name, value):
        raise AttributeError("frozen")


def said(e):
    try:
        return str(e)
    except Exception:
        return "?"


ACTIONS = {}


def action(f):
    ACTIONS[f.__name__] = f
    return f


def task(fid, context):
    n = NCALL[fid] = NCALL.get(fid, 0) + 1
    w, wm = rt.now()
    s, sm = rt.rel(context.strategy_dt)
    c, cm = rt.rel(context.current_dt)
    rt.emit(e="b", f=fid, s=s, sm=sm, w=w, wm=wm, c=c, cm=cm)
    durs = PLAN.get("durs", {}).get(fid) or [0]
    rt.advance_ms(durs[(n - 1) % len(durs)])
    for act in PLAN.get("acts", {}).get(fid, {}).get(str(n), []):
        ACTIONS[act[0]](context, *act[1:])
    r = PLAN.get("raises", {}).get(fid)
    x, xm = rt.now()
    if r and r[0] == n:
        rt.emit(e="x", x=x, xm=xm, out="raise")
        global ERR
        kind = r[1]
        if kind == "odd":
            ERR = OddFailure("a", 2)
        elif kind == "key":
            ERR = KeyError("missing")
        elif kind == "user":
            from jqtrade.common.exceptions import InvalidParam
            ERR = InvalidParam("bad")
        elif kind == "falsy":
            ERR = FalsyFailure()
        elif kind == "mute":
            ERR = MuteFailure()
        elif kind == "frozen":
            ERR = FrozenFailure(3)
        elif kind == "cancelled":
            import asyncio
            ERR = asyncio.CancelledError()
        else:
            ERR = TaskFailure("boom")
        raise ERR
    rt.emit(e="x", x=x, xm=xm, out="ok")


G = None
PHASE = ["init"]


def ltry(f):
    try:
        return "ok", f()
    except Exception as e:
        return "raise", e


@action
def l_opts(context, want, opts):
    opts = dict(opts)
    conv(opts)
    r, v = ltry(lambda: G["set_options"](**opts))
    rt.emit(e="lopts", want=want, ret=r)
    if r == "raise" and PHASE[0] == "init":
        raise v


@action
def l_reg(context, fid, time):
    r, v = ltry(lambda: G["run_daily"](G[fid], time))
    rt.emit(e="lreg", f=fid, ret=r)


@action
def l_api(context, name, var):
    g = G
    calls = {
        "order": [lambda: g["order"]("000001.XSHE", 100), lambda: g["order"]("600000.XSHG", -100, g["LimitOrderStyle"](10), "long"),
                  lambda: g["order"]("000001.XSHE", 100, side="short")],
        "cancel": [lambda: g["cancel_order"]("1"), lambda: g["cancel_order"](7)],
        "batch": [lambda: g["batch_submit_orders"]([{"code": "000001.XSHE", "amount": 100}]),
                  lambda: g["batch_submit_orders"]([{"code": "000001.XSHE", "amount": 100}, {"code": "600000.XSHG", "amount": -200, "side": "long"}])],
        "batchcancel": [lambda: g["batch_cancel_orders"](["1"]), lambda: g["batch_cancel_orders"](["1", "2"])],
        "query": [lambda: g["get_orders"](), lambda: g["get_orders"](order_id="1"), lambda: g["get_orders"](code="000001.XSHE"),
                  lambda: g["get_orders"](status="new")],
        "sync_balance": [lambda: g["sync_balance"]()],
        "sync_orders": [lambda: g["sync_orders"]()],
        "portfolio": [lambda: context.portfolio, lambda: context.portfolio.total_value, lambda: context.portfolio.positions,
                      lambda: g["context"].portfolio.available_cash],
    }[name]
    rt.emit(e="api0")
    r, v = ltry(calls[var % len(calls)])
    if name == "batch" and r == "ok" and isinstance(v, list) and all(x is None for x in v):
        r = "noids"
    rt.emit(e="api", name=name, ret=r)


def init(context, g):
    """process_initialize of the generated strategies"""
    global G
    G = g
    rt.emit(e="init")
    for step in PLAN["init"]:
        k = step[0]
        if k == "sleep":
            rt.advance_ms(step[1])
        elif k == "options":
            opts = dict(step[1])
            conv(opts)
            try:
                g["set_options"](**opts)
                rt.emit(e="opt", ok=True)
            except Exception as e:
                rt.emit(e="opt", ok=False, err=type(e).__name__)
                if not PLAN.get("tolerant"):
                    raise
        elif k == "daily":
            fid, time = step[1], step[2]
            how = step[3] if len(step) > 3 else "plain"
            func = make_func(fid, how, g)
            try:
                if how == "kw":
                    g["run_daily"](func=func, time=time)
                else:
                    g["run_daily"](func, time)
                rt.emit(e="reg", f=fid, ok=True)
            except Exception as e:
                rt.emit(e="reg", f=fid, ok=False, err=type(e).__name__)
                if not PLAN.get("tolerant"):
                    raise
        elif k == "act":
            ACTIONS[step[1]](context, *step[2:])
    if PLAN.get("after_init"):
        # names bound by the strategy module change after registration
        for name in PLAN["after_init"]:
            g[name] = lambda context: task("WRONG_" + name, context)
    w, wm = rt.now()
    PHASE[0] = "run"
    rt.emit(e="ini", w=w, wm=wm)


def make_func(fid, how, g):
    if how in ("plain", "kw"):
        return g[fid]
    if how == "lambda":
        return lambda context: task(fid, context)
    if how == "closure":
        def handler(context):
            return task(fid, context)
        return handler
    if how == "method":
        class H:
            def on_time(self, context):
                return task(fid, context)
        return H().on_time
    if how == "imported":
        import c_helper_mod
        return c_helper_mod.make(fid)
    if how == "samename":
        def f0(context):
            return task(fid, context)
        return f0
    raise AssertionError(how)


def conv(opts):
    import datetime
    for k in ("market_period", "sync_period"):
        if opts.get(k):
            opts[k] = [tuple(datetime.time(*x) if isinstance(x, list) else x for x in p) for p in opts[k]]


def main(job, d):
    global PLAN, DIR
    PLAN, DIR = job["plan"], d
    sys.modules["c_sched"] = sys.modules[__name__]
    rt.open_trace(d)
    rt.fake_psutil()
    import types
    hm = types.ModuleType("c_helper_mod")
    exec("import c_sched\ndef make(fid):\n    def f0(context):\n        return c_sched.task(fid, context)\n    return f0\n", hm.__dict__)
    sys.modules["c_helper_mod"] = hm
    code = os.path.join(d, PLAN.get("module", "strat") + ".py")
    fids = PLAN["fids"]
    with open(code, "w") as f:
        f.write("import c_sched\n\n\n")
        if not PLAN.get("noinit"):
            f.write("def process_initialize(context):\n    c_sched.init(context, globals())\n\n\n")
        f.write(PLAN.get("code", ""))
        for fid in fids:
            f.write(f"def {fid}(context):\n    c_sched.task({fid!r}, context)\n\n\n")
    args = ["start_task", "-n", "vtask", "-c", code, "-o", os.path.join(d, "out.log")]
    if PLAN.get("config") is not None:
        cf = os.path.join(d, "cfg.py")
        with open(cf, "w") as f:
            f.write(PLAN["config"])
        args += ["--config", cf]
    if PLAN.get("gate") is not None:
        import c_gates
        import jqtrade.account.config as acfg
        c_gates.PLAN = PLAN["gate"]
        acfg.get_config().TRADE_GATE = "c_gates.RecGate"
    rt.start_clock(*PLAN["start"])
    if PLAN.get("end") is not None:
        rt.L.vt_set_end(rt.at(*PLAN["end"]))
    for sec, ms, sig in PLAN.get("signals", []):
        rt.L.vt_signal_at(rt.at(sec, ms), sig)
    try:
        rt.cli(*args)
    except SystemExit as e:
        w, wm = rt.now()
        rt.emit(e="exit", how="error", w=w, wm=wm, same=False, err="SystemExit")
        return 0
    except BaseException as e:
        w, wm = rt.now()
        rt.emit(e="exit", how="error", w=w, wm=wm, same=e is ERR or (type(e) is type(ERR) and said(e) == said(ERR)),
                err=f"{type(e).__name__}: {said(e)}")
        return 0
    w, wm = rt.now()
    rt.emit(e="exit", how="normal", w=w, wm=wm, same=False)
    return 0
