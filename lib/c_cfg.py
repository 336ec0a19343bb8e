"""Child side of the configuration scenarios: one start through the command line with options, environment text and a configuration file."""
import datetime
import importlib
import io
import os
import sys

import rt
from jqtrade.account.trade_gate import AbsTradeGate

JOB = None
D = None
SINKS = {}
CALLS = []


class GateA(AbsTradeGate):
    def setup(self, options):
        pass

    def sync_balance(self):
        rt.emit(e="sb", w=rt.now()[0])
        return {"cash": {"total_asset": 1, "total_assert": 1, "available_cash": 1, "locked_cash": 0}, "positions": []}

    def sync_orders(self):
        rt.emit(e="so", w=rt.now()[0])
        return []

    def order(self, o):
        pass

    def cancel_order(self, oid):
        pass


class GateB(GateA):
    pass


class Obj:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s


# ------------------------------------------------------------------ values
def secs(t):
    if isinstance(t, str):
        t = datetime.datetime.strptime(t, "%H:%M:%S").time()
    return t.hour * 3600 + t.minute * 60 + t.second


def val(name, v):
    p, c = [], 0
    if isinstance(v, (list, tuple)):
        try:
            p = [[secs(a), secs(b)] for a, b in v]
        except Exception:
            p = []
    if isinstance(v, (int, float)):
        c = -int(-v // 1)
    if name == "RUNTIME_DIR" and isinstance(v, str):
        v = os.path.abspath(os.path.expanduser(v))
    r = repr(v)
    return {"r": r, "b": bool(v), "p": p, "c": c}


def configs():
    import jqtrade.account.config as a
    import jqtrade.scheduler.config as s
    return {"S": s.get_config(), "A": a.get_config()}


def names(c):
    return sorted(n for n in dir(c) if n.isupper() and not n.startswith("_"))


# ------------------------------------------------------------------ the strategy's side
def imports(late):
    for m in JOB["mods"]:
        if m["late"] == late:
            try:
                got = importlib.import_module(m["name"]).HERE
            except ImportError:
                got = ""
            rt.emit(e="mod", name=m["name"], got=got)


def move(when):
    if JOB["chdir"] == when:
        os.chdir(os.path.join(D, "elsewhere"))


def loaded(g):
    rt.emit(e="loaded", env=dict(os.environ))
    move("top")
    imports(False)


def other():
    rt.emit(e="other")


def options():
    return eval(JOB["opts"], {"time": datetime.time, "D": D})


def conf(g, context):
    if JOB["opts"] is None:
        return
    o = options()
    rt.emit(e="opts", opts={k: val(k.upper(), v) for k, v in o.items() if k not in ("account_no", "order_dir")})
    g["set_options"](**o)


def register(g):
    for f, t in JOB["reg"]:
        g["run_daily"](g[f], t)


def snapshot(context):
    acc = True
    try:
        context.portfolio
    except Exception:
        acc = False
    gate = ""
    if acc:
        from jqtrade.scheduler.context import Context
        t = type(Context.get_instance().trade_gate)
        gate = t.__module__ + "." + t.__name__
    cs = configs()
    rt.emit(e="snap", account=acc, gate=gate, seen={m: {n: val(n, getattr(cs[m], n))["r"] for n in names(cs[m])} for m in cs})


def say(g, phase):
    for c in JOB["calls"].get(phase, []):
        i = len(CALLS) + 1
        mark = "#%d#" % i
        if c["kind"] == "print":
            args = [mark] + eval(c["args"]) + ["/%d/" % i]
            kw = {k: c[k] for k in ("sep", "end") if k in c}
            buf = io.StringIO()
            print(*args, file=buf, **kw)
            if "flush" in c:
                kw["flush"] = c["flush"]
            if c["sink"]:
                kw["file"] = sink(c["sink"])
            CALLS.append({"kind": "print", "sink": c["sink"], "text": buf.getvalue()})
            g["print"](*args, **kw)
        else:
            CALLS.append({"kind": c["kind"], "sink": "", "text": mark + " x /%d/" % i})
            getattr(g["log"], c["kind"])(mark + " %s /%d/", "x", i)


def sink(s):
    if s not in SINKS:
        SINKS[s] = Obj() if s == "obj" else sys.stdout if s == "stdout" else sys.stderr if s == "stderr" else open(os.path.join(D, s), "w")
    return SINKS[s]


def init(context, g):
    move("init")
    if JOB["regfirst"]:
        register(g)
    conf(g, context)
    snapshot(context)
    if not JOB["regfirst"]:
        register(g)
    if JOB["order"]:
        g["order"]("000001.XSHE", 100)
    say(g, "init")
    rt.emit(e="ini")


def tick(kind, g, context):
    if kind == "end":
        finish("")
        sys.stdout.flush()
        os._exit(0)
    rt.emit(e="tick", kind=kind, w=rt.now()[0])
    if kind == "t1":
        move("tick")
        imports(True)
    say(g, kind)


def subst(x, d):
    if isinstance(x, str):
        return x.replace("{d}", d)
    if isinstance(x, list):
        return [subst(y, d) for y in x]
    if isinstance(x, dict):
        return {subst(k, d): subst(v, d) for k, v in x.items()}
    return x


def dirs_in(base):
    out = []
    if os.path.isdir(base):
        subs = [s for s in sorted(os.listdir(base)) if os.path.isdir(os.path.join(base, s)) and s != "data"]
        if not subs:
            out.append(base)
        for s in subs:
            out += dirs_in(os.path.join(base, s))
    return out


def real(j, d):
    import subprocess
    for p, text in j["files"].items():
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    for p in ("w", "home", "elsewhere"):
        os.makedirs(os.path.join(d, p), exist_ok=True)
    with open(os.path.join(d, "conf.py"), "w") as f:
        f.write("ACCOUNT_TRADE_GATE = 'thegate.Gate'\n")
    cs = configs()
    known = [{"m": m, "s": n, "n": list(n), "v": val(n, getattr(cs[m], n))} for m in ("S", "A") for n in names(cs[m])]
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    env.update(HOME=os.path.join(d, "home"), JQ_SAY=os.path.join(d, "said"))
    argv = ["start_task", "-n", "verif-%d-%d" % (os.getpid(), os.getppid()), "-c", j["code"], "--config", os.path.join(d, "conf.py")]
    r = subprocess.run([sys.executable, "-m", "jqtrade"] + argv + (["-e", j["env"]] if j["env"] else []), cwd=os.path.join(d, "elsewhere"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=50)
    said = read("said").split("\n")[:-1]
    rt.emit(e="real", said=said, known=known, err=r.stdout.decode(errors="replace")[-300:])
    return 0


def main(job, d):
    global JOB, D
    JOB, D = subst(job, d), d
    j = JOB
    rt.open_trace(d)
    if "real" in j:
        return real(j, d)
    rt.fake_psutil()
    for p in ("w", "home", "elsewhere", "rt") + tuple(j["dirs"]):
        os.makedirs(os.path.join(d, p), exist_ok=True)
    os.environ["HOME"] = os.path.join(d, "home")
    for p, text in j["files"].items():
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    os.chdir(os.path.join(d, "w"))
    cs = configs()
    cs["S"].RUNTIME_DIR = type(cs["S"])().RUNTIME_DIR       # (the default depends on the home directory)
    known = [{"m": m, "s": n, "n": list(n), "v": val(n, getattr(cs[m], n))} for m in ("S", "A") for n in names(cs[m])]
    final = []
    if j["cfg"] is not None:
        ns = {}
        exec(compile(j["cfg"], "cfg", "exec"), ns)
        short = lambda n: n.split("_", 1)[1] if n.startswith(("SCHEDULER_", "ACCOUNT_")) else n
        final = [{"n": list(n), "v": val(short(n), v)} for n, v in ns.items() if not n.startswith("__")]
    if j["shell"]:
        sys.path.insert(0, os.path.join(d, j["shell"]))
    rt.start_clock(*j["start"])
    rt.L.vt_set_end(rt.at(86400))
    before = dict(os.environ)
    rt.emit(e="start", known=known, file=final, before=before, d=d)
    err = ""
    try:
        rt.cli(*j["argv"])
    except SystemExit as e:
        err = f"exit {e.code}"
    except BaseException as e:
        err = f"{type(e).__name__}: {e}"
    finish(err or "returned")
    return 0


def finish(err):
    j, d = JOB, D
    out = sys.stdout
    for s in SINKS.values():
        if hasattr(s, "flush"):
            s.flush()
    out.flush()
    os.chdir(d)
    texts = {"stdout": read("stdout"), "stderr": read("stderr"), "obj": SINKS["obj"].text if "obj" in SINKS else ""}
    for s in ("f1", "f2"):
        texts[s] = read(s)
    if j["log"]:
        texts["log"] = read(j["log"])
    found = {}
    for p, t in texts.items():
        at = sorted((t.index(c["text"]), i) for i, c in enumerate(CALLS, 1) if c["text"] in t)
        found[p] = [i for _, i in at]
        for i, c in enumerate(CALLS, 1):         # parts of a text, or the text twice
            n = t.count("#%d#" % i)
            if n != (i in found[p]):
                found[p].append(-i)
    top = os.path.join(d, "home"), os.path.join(d, "rt")
    ds = [x for t in top for x in dirs_in(t) if x not in top]
    ds += [x for x in dirs_in(os.path.join(d, "w", "rt")) + dirs_in(os.path.join(d, "elsewhere", "rt"))]
    data = []
    for x in ds:
        if os.path.isdir(os.path.join(x, "data")) and os.listdir(os.path.join(x, "data")):
            data.append(repr(x))
    rt.emit(e="end", err=err, found=found, calls=[{"kind": c["kind"], "sink": c["sink"]} for c in CALLS], dirs=[repr(x) for x in ds], data=data)


def read(p):
    p = os.path.join(D, p)
    return open(p, errors="replace", newline="").read() if os.path.exists(p) else ""
