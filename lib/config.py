"""C19: start options, environment text, configuration file and printed text."""
from core import MachineryError
from events import notices, uniq

JCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
RULE = {"C19": "distinct combinations of settings given in the file, settings given as options, number of assignments in the environment text, import directories, log option and kinds of print calls"}
DEF = ["first_wins", "blank_key", "last_eq", "drop_eq", "no_last", "anywhere", "shared", "unprefixed", "longer", "file_wins"]
OPT = {"SETUP_ACCOUNT": "use_account", "RUNTIME_DIR": "runtime_dir", "MARKET_PERIOD": "market_period", "SYNC_BALANCE": "sync_balance", "SYNC_ORDER": "sync_order",
       "SYNC_INTERNAL": "sync_internal", "SYNC_PERIOD": "sync_period"}
OPTS = list(OPT.values())
S = ["EVENT_DAYS_COUNT", "MARKET_PERIOD", "SETUP_ACCOUNT", "RUNTIME_DIR"]
A = ["SYNC_BALANCE", "SYNC_ORDER", "SYNC_INTERNAL", "SYNC_PERIOD", "TRADE_GATE"]


def cfg(t, f, defect="none", sim=False):
    return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + f"INVARIANT {'Scenario' if sim else 'NoClauseViolated'}\n" + \
        f"CONSTANTS MaxText = {t} MaxFile = {f} Defect = \"{defect}\" Sim = {str(sim).upper()}\n"


# ---------------------------------------------------------------- values, as source text
def T(s):
    return "time(%d, %d%s)" % (s // 3600, s // 60 % 60, ", %d" % (s % 60) if s % 60 else "")


def periods(rng, opt, full=True):
    n = rng.choice([1, 1, 2, 2, 3])
    step = rng.choice([60, 60, 900, 1])
    cuts = sorted(rng.sample(range(30000 // step, 60000 // step), 2 * n))
    out = []
    for i in range(n):
        a, b = cuts[2 * i] * step, cuts[2 * i + 1] * step
        if opt and rng.random() < .4:
            out.append("('%02d:%02d:%02d', '%02d:%02d:%02d')" % (a // 3600, a // 60 % 60, a % 60, b // 3600, b // 60 % 60, b % 60))
        else:
            out.append(("(%s, %s)" if rng.random() < .8 else "[%s, %s]") % (T(a), T(b)))
    return ("[%s]" if rng.random() < .8 else "(%s,)") % ", ".join(out)


GATES = ["c_cfg.GateA", "c_cfg.GateA", "c_cfg.GateB", "mygates.GateC", "mygates.sub.GateD"]


def value(rng, n, opt=False):
    if n == "EVENT_DAYS_COUNT":
        return str(rng.choice([2, 3, 30, 400]))
    if n == "MARKET_PERIOD":
        return periods(rng, opt)
    if n in ("SETUP_ACCOUNT", "SYNC_BALANCE", "SYNC_ORDER"):
        return rng.choice(["True", "False", "True", "False", "1", "0"])
    if n == "RUNTIME_DIR":
        return rng.choice(["'{d}/rt/%s'", "'{d}/rt/%s/deep'", "'~/%s'", "'{d}/rt/with blank %s'", "'{d}/rt/目录%s'"]) % rng.choice("abcdefgh")
    if n == "SYNC_INTERNAL":
        return rng.choice(["1", "2", "5", "7", "30", "60", "90", "2.5", "11"])
    if n == "SYNC_PERIOD":
        return rng.choice(["[]", periods(rng, opt), periods(rng, opt)])
    return repr(rng.choice(GATES))


def noise(rng, n):
    pre = "SCHEDULER_" if n in S else "ACCOUNT_"
    oth = "ACCOUNT_" if n in S else "SCHEDULER_"
    return rng.choice([n, "MY_" + pre + n, pre.lower() + n, pre + n + "2", pre + n + "_OLD", oth + pre + n, pre + oth + n, oth + n, "_" + pre + n, pre[:-1] + n, pre + "_" + n,
                       pre + n.lower(), pre + pre + n, pre.title() + n, n + "_" + pre[:-1], pre + n[:-1]])


PREAMBLE = ["# -*- coding: utf-8 -*-\n# 自定义配置\n", "'''配置'''\n", ""]


def config(rng, sets, extra, depth=0):
    """source text assigning each of sets (full name -> source of value), among other names"""
    lines = [rng.choice(PREAMBLE) + rng.choice(["from datetime import time\n", "import datetime\nfrom datetime import time\n", "import datetime\ntime = datetime.time\n"])]
    helper = False
    items = list(sets.items()) + list(extra)
    rng.shuffle(items)
    k = 0
    while k < len(items):
        n, v = items[k]
        r = rng.random()
        k += 1
        if r < .45:
            lines.append("%s = %s\n" % (n, v))
        elif r < .52:
            lines.append("def make_%d():\n    return %s\n\n\n%s = make_%d()\n" % (k, v, n, k))
        elif r < .58 and k < len(items):
            m, w = items[k]
            k += 1
            lines.append("%s, %s = %s, %s\n" % (n, m, v, w))
        elif r < .64:
            lines.append("if %s:\n    %s = %s\nelse:\n    %s = None\n" % (rng.choice(["True", "time(9, 30) < time(10, 0)", "not None"]), n, v, n))
        elif r < .70:
            lines.append("%s = %s\n%s = %s\n" % (n, rng.choice(["None", "object", "[1]"]), n, v))
        elif r < .75:
            lines.append("_v%d = %s\n%s = _v%d\n" % (k, v, n, k))
        elif r < .80:
            lines.append("for _x in (1,):\n    %s = [y for y in [%s] if _x][0]\n" % (n, v))
        elif r < .84:
            lines.append("try:\n    import no_such_module_x\nexcept ImportError:\n    %s = %s\n" % (n, v))
        elif r < .88:
            lines.append("LIMIT_%d = [%s]\n\n\ndef pick_%d():\n    return LIMIT_%d[0]\n\n\n%s = pick_%d()\n" % (k, v, k, k, n, k))
        elif r < .91 and n.isidentifier():
            lines.append("globals()[%r] = %s\n" % (n, v))
        elif r < .94:
            lines.append("%s = %s; GONE_%d = %s; del GONE_%d\n" % (n, v, k, v, k))
        else:
            lines.append("%s: object = %s  # 说明\n" % (n, v))
    for n, v in extra:
        if rng.random() < .1:
            lines.append("del %s\n" % n) if n not in sets else None
            break
    return "".join(lines)


# ---------------------------------------------------------------- environment texts
KEYS = ["A", "FOO", "foo", "FOO_BAR", "PATH", "USER", "MY VAR", "变量", "X1", "LANGUAGE", "A.B", "JQ-OPT", "NAME"]
VALUES = ["1", "", "a=b", "=", "a=b=c=", "./bin:/usr/bin", "'quoted'", '"q"', "值", "a b", "-n other", "x,y", "{d}/w", "#1", "%PATH%", "$HOME", "\\n", "C:\\dir", "a==b", "True"]


def envtext(rng, pyp=None):
    parts = [(rng.choice(KEYS), rng.choice(VALUES)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    if pyp:
        parts.insert(rng.randint(0, len(parts)), ("PYTHONPATH", ":".join(pyp)))
        if rng.random() < .15:
            parts.insert(0, ("PYTHONPATH", "{d}/unused"))
    if len(parts) > 1 and rng.random() < .3:
        parts.append((parts[0][0], rng.choice(VALUES))) if parts[0][0] != "PYTHONPATH" else None
    sp = lambda: rng.choice(["", "", "", " ", "  "])
    txt = ";".join(sp() + k + sp() + "=" + v for k, v in parts)
    if rng.random() < .2:
        txt += rng.choice([";", ";;", "; ", " "])
    if rng.random() < .1:
        txt = rng.choice([";", " ;", " "]) + txt
    return txt


def keys(text):
    """named variables, as in Config.tla (judged there; used to choose what to report)"""
    return {p.split("=", 1)[0].strip(" ") for p in text.split(";") if "=" in p}


# ---------------------------------------------------------------- print calls
def calls(rng, named=True):
    out = []
    for _ in range(rng.choice([0, 2, 4, 6])):
        k = rng.choice(["print"] * 5 + ["info", "info", "debug", "warning"])
        c = {"kind": k, "sink": ""}
        if k == "print":
            if rng.random() < .45 and named:
                c["sink"] = rng.choice(["f1", "f2", "stdout", "obj", "stderr"])
            c["args"] = rng.choice(["[]", "['x']", "['多行\\n文字', 3.5]", "[None, [1, 'a'], {}]", "[chr(128512)]", "['a', 'b', 'c']"])
            if rng.random() < .3:
                c["sep"] = rng.choice(["", "|", "\n", ", ", None])
            if rng.random() < .4:
                c["end"] = rng.choice(["", "\n\n", "|", " ", None])
            if rng.random() < .3:
                c["flush"] = c["sink"] != "obj" and rng.choice([True, False])
        out.append(c)
    return out


# ---------------------------------------------------------------- jobs
LONGOPT = {"-n": "--name", "-c": "--code", "-o": "--out", "-e": "--env"}


def word(rng, o, v):
    full = LONGOPT.get(o, o)
    if v.startswith("-") or rng.random() < .3:
        return ["%s=%s" % (full, v)]
    return [rng.choice([o, full]), v]


def job(rng, env=None, focus=None, sim=None):
    names = rng.sample(S + A, rng.choice([0, 1, 2, 3, 5, 9]))
    gate = rng.choice(["rec"] * 6 + ["builtin"] * 2 + ["empty", "none"])
    if focus == "builtin":
        gate = "builtin"
    sets = {}
    for n in names:
        sets[("SCHEDULER_" if n in S else "ACCOUNT_") + n] = value(rng, n)
    sets.pop("ACCOUNT_TRADE_GATE", None)
    opts = None
    if rng.random() < .92 or focus:
        opts = {OPT[n]: value(rng, n, True) for n in rng.sample(list(OPT), rng.choice([0, 0, 1, 2, 4, 7]))}
        opts["account_no"] = "'1'"
    if focus == "sync":
        gate = "rec"
        for n in rng.sample(A[:4], rng.choice([1, 2, 4])):
            sets["ACCOUNT_" + n] = value(rng, n)
            if rng.random() < .6:
                opts[OPT[n]] = value(rng, n, True)
            else:
                opts.pop(OPT[n], None)
        opts["use_account"] = "True"
    if focus == "dir":
        sets["SCHEDULER_RUNTIME_DIR"] = value(rng, "RUNTIME_DIR")
        opts.pop("runtime_dir", None)
        if rng.random() < .5:
            opts["runtime_dir"] = value(rng, "RUNTIME_DIR")
    if gate == "rec":
        sets["ACCOUNT_TRADE_GATE"] = repr(rng.choice(GATES))
    elif gate == "builtin":
        if rng.random() < .3:
            sets["ACCOUNT_TRADE_GATE"] = repr("jqtrade.account.trade_gate.AnXinDMATradeGate")
        if opts is not None:
            opts["order_dir"] = "'{d}/orders'"
            for o, n in (("sync_balance", "ACCOUNT_SYNC_BALANCE"), ("sync_order", "ACCOUNT_SYNC_ORDER")):
                if rng.random() < .5:
                    opts[o] = "False"
                else:
                    opts.pop(o, None)
                    sets[n] = "False"
            if focus == "builtin":
                opts.pop("use_account", None)
                sets["SCHEDULER_SETUP_ACCOUNT"] = "True"
                if rng.random() < .6:
                    sets["SCHEDULER_RUNTIME_DIR"] = value(rng, "RUNTIME_DIR")
                    opts.pop("runtime_dir", None)
    else:
        sets["ACCOUNT_TRADE_GATE"] = "''" if gate == "empty" else "None"
    extra = []
    for _ in range(rng.choice([0, 1, 3, 6])):
        n = rng.choice(S + A)
        m = noise(rng, n)
        if m not in sets:
            v = value(rng, n)
            if m == "ACCOUNT_TRADE_GATE":
                continue
            if gate == "builtin" and m.startswith("ACCOUNT_SYNC_"):
                continue
            extra.append((m, v))
    j = {"dirs": ["orders"], "files": {}, "shell": None, "mods": [], "chdir": rng.choice([None] * 4 + ["top", "init", "tick"])}
    usecfg = rng.random() < .85 or bool(focus)
    if gate != "rec" and gate != "builtin" and not usecfg:
        usecfg = True
    if not usecfg:
        # the built-in gate would be used, with its defaults
        gate = "builtin"
        if opts is not None:
            opts["order_dir"] = "'{d}/orders'"
            opts["sync_balance"] = opts["sync_order"] = "False"
    j["cfg"] = config(rng, sets, extra) if usecfg else None
    j["broken"] = "" if focus or rng.random() > .08 else rng.choice(["no code"] + ["no config", "bad config", "bad config"] * usecfg)
    # where things lie
    code = rng.choice(["strat.py", "./strat.py", "{d}/w/strat.py", "sub/strat.py", "{d}/own dir/my_strategy.py", "../own dir/my_strategy.py"])
    own = code.replace("{d}/", "../").rsplit("/", 1)[0] if "/" in code else "."
    named = rng.choice(["plain"] * 6 + ["dots", "std", "bare"])
    if named != "plain":
        base = rng.choice({"dots": DOTS, "std": STD, "bare": BARE}[named])
        code = (code.rsplit("/", 1)[0] + "/" if "/" in code else "") + base
    pool = ["{d}/p1", "p2", "./p3", "../p4", "{d}/no_such_dir", "{d}/p5 x", "p6/lib"]
    pyp = rng.sample(pool, rng.choice([0, 0, 1, 2, 3, 5]))
    if len(pyp) > 1 and rng.random() < .15:
        pyp.append(pyp[0])
    j["shell"] = "shell" if rng.random() < .6 else None
    text = env if env is not None else envtext(rng, pyp)
    if env is not None:
        pyp = []
    places = {"own": os_join("w", own)}
    for p in pool:
        if "no_such" not in p:
            places[p] = p.replace("{d}/", "") if p.startswith("{d}") else os_join("w", p)
    places["shell"] = "shell"
    for k in range(rng.choice([0, 1, 2, 4])):
        name = "wmod%d" % k
        where = ["own"] if rng.random() < .1 else rng.sample(list(places), rng.choice([1, 2, 3, 5])) if rng.random() < .7 else rng.sample((pyp and [p for p in pyp if p in places]) + ["own", "shell"], 2)
        for p in set(where):
            j["files"]["%s/%s.py" % (places[p], name)] = "HERE = %r\n" % p
        j["mods"].append({"name": name, "late": rng.random() < (.7 if j["chdir"] else .3), "has": sorted(set(where))})
    if "mygates" in str(sets):
        p = places[rng.choice(["own"] + [p for p in pyp if p in places])]
        j["files"][p + "/mygates/__init__.py"] = "import c_cfg\n\n\nclass GateC(c_cfg.GateA):\n    pass\n"
        j["files"][p + "/mygates/sub.py"] = "import c_cfg\n\n\nclass GateD(c_cfg.GateA):\n    pass\n"
    sf = os_join("w", code.replace("{d}/", "../"))
    day = rng.choice([(2024, 3, 5), (2024, 12, 31), (2024, 2, 29)])
    s0 = rng.choice([rng.randint(25000, 60000), 33000, 34190, 41000])
    j["start"] = [*day, s0 // 3600, s0 // 60 % 60, s0 % 60, 500]
    j["end"] = min(s0 + rng.choice([60, 600, 3700, 20000]), 82000)
    hms = lambda s: "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    j["reg"] = [["t1", hms(s0 + 10)], ["t2", hms(s0 + 20)], ["o", "open"], ["c", "close"], ["m", "every_minute"], ["e", hms(j["end"])]]
    rng.shuffle(j["reg"])
    j["regfirst"] = rng.random() < .5
    j["calls"] = {p: calls(rng) for p in ("init", "t1", "t2")}
    j["order"] = gate == "builtin" and opts is not None and focus == "builtin"
    j["opts"] = None if opts is None else "dict(%s)" % ", ".join("%s=%s" % x for x in opts.items())
    j["files"][sf] = "import c_cfg\n\nc_cfg.loaded(globals())\n\n\ndef process_initialize(context):\n    c_cfg.init(context, globals())\n" + "".join(
        "\n\ndef %s(context):\n    c_cfg.tick(%r, globals(), context)\n" % (f, k) for f, k in (("t1", "t1"), ("t2", "t2"), ("o", "open"), ("c", "close"), ("m", "minute"), ("e", "end")))
    if rng.random() < .4:       # its own classes, by name
        j["files"][sf] = OWNCLASS + j["files"][sf]
    if named in ("dots", "bare") and rng.random() < .7:
        other = "import c_cfg\n\nc_cfg.other()\n\n\ndef process_initialize(context):\n    pass\n"
        j["files"][sf.rsplit("/", 1)[0] + "/" + rng.choice([base.split(".")[0] + ".py", base.rsplit(".", 2 if named == "dots" else 1)[0] + ".py", (base.split(".")[0] if "." in base else "x") + "/__init__.py"])] = other
    argv = [word(rng, "-n", "vtask"), word(rng, "-c", code)]
    j["log"] = None
    if rng.random() < .7:
        o = rng.choice(["out.log", "./logs/out.log", "{d}/out.log", "../logs dir/o.txt", "out"])
        argv.append(word(rng, "-o", o))
        j["log"] = os_join("w", o) if not o.startswith("{d}") else o.replace("{d}/", "")
        j["dirs"] += ["w/logs", "logs dir"]
    if text or rng.random() < .1:
        argv.append(word(rng, "-e", text))
    if usecfg:
        c = rng.choice(["conf.py", "./conf.py", "{d}/conf/my config.py", "~/conf.py", "../conf/c.txt"])
        argv.append(word(rng, "--config", c))
        place = {"~": "home" + c[1:], "{": c.replace("{d}/", "")}.get(c[0]) or os_join("w", c)
        if j["broken"] == "bad config":
            j["files"][place] = rng.choice([j["cfg"] + "\nraise ValueError('no')\n", "import no_such_module_x\n" + j["cfg"], j["cfg"] + "\nx = = 1\n", "print(undefined_name)\n"])
        elif j["broken"] != "no config":
            j["files"][place] = j["cfg"]
    if j["broken"] == "no code":
        del j["files"][sf]
    j["debug"] = rng.random() < .3
    if j["debug"]:
        argv.append(["--debug"])
    rng.shuffle(argv)
    j["argv"] = ["start_task"] + [w for x in argv for w in x]
    j["env"] = text
    return j


def real(rng):
    """a start in a process of its own: whatever the file's name, modules loaded before it included"""
    base = rng.choice(["jqtrade.py"] * 2 + ["jqtrade.v2.py", "__main__.py", "logging.py", "signal.py", "psutil.py"] + DOTS + STD + BARE)
    where = rng.choice(["../w/", "../w/sub/", "{d}/own dir/"])
    j = {"real": True, "files": {}, "code": where + base, "env": rng.choice([None, "A=1", "PYTHONPATH={d}/p1"])}
    own = os_join("elsewhere", where.replace("{d}/", "../"))
    j["files"][os_join(own, base)] = (OWNCLASS if rng.random() < .6 else "") + REAL
    j["files"][os_join(own, "thegate.py")] = GATE
    for p in rng.sample([own, "w", "p1"], rng.choice([0, 1, 2])):
        n = rng.choice([base.split(".")[0] + ".py", base.rsplit(".", 1)[0] + ".py", (base.split(".")[0] if "." in base else "x") + "/__init__.py"])
        if os_join(p, n) not in j["files"] and not (base.split(".")[0] + ".py" in STD + ["__main__.py", "logging.py", "signal.py", "psutil.py", "jqtrade.py"]):
            j["files"][os_join(p, n)] = REAL.replace("own", "other")
    return j


DOTS = ["my.strategy.py", "strat.v2.py", "strat.2024.03.py", "a.b.c.py"]
STD = ["queue.py", "calendar.py", "statistics.py", "secrets.py", "argparse.py"]
BARE = ["strategy", "strat.txt", "my.strategy", "STRAT.PY", "strat.py.bak", "策略", "strat.2024.03"]
OWNCLASS = '''from __future__ import annotations
import dataclasses
import pickle


@dataclasses.dataclass
class Holding:
    code: str
    other: Holding | None = None
    kind: dataclasses.InitVar[int] = 1
    many: list = dataclasses.field(default_factory=list)


assert pickle.loads(pickle.dumps(Holding("a", Holding("b")))) == Holding("a", Holding("b"))
'''
REAL = '''import os

import jqtrade


def say(x):
    with open(os.environ["JQ_SAY"], "a") as f:
        f.write(x + "\\n")


def work(context):
    pass


say("own")


def process_initialize(context):
    run_daily(work, "open+1m")
    set_options(use_account=True, account_no="1", sync_balance=False, sync_order=False, runtime_dir=os.environ["HOME"])
    say("id" if order("000001.XSHE", 100) else "no id")
    log.info("x")
    say("end")
    os._exit(0)
'''
GATE = '''class Gate:
    def setup(self, options):
        pass

    def order(self, o):
        pass
'''


def os_join(a, b):
    import posixpath
    return posixpath.normpath(posixpath.join(a, b))


def record(i, j, r):
    tr = r["trace"]
    if "real" in j:
        e = [e for e in tr if e["e"] == "real"]
        if not e:
            raise MachineryError(f"no answer from the start: {j['code']} {r['stderr'][-800:]}")
        said = e[0]["said"]
        return {"id": i, "known": e[0]["known"], "file": [], "opts": {k: [] for k in OPTS}, "seen": [], "called": False, "up": said == ["own", "id", "end"], "loaded": False, "account": False,
                "gate": "", "dirs": [], "data": [], "order": False, "start": 0, "end": 0, "open": [], "close": [], "minutes": [], "sb": [], "so": [], "recorded": False, "env": [], "envseen": [],
                "own": list("own"), "rest": [], "mods": [], "calls": [], "found": {}, "out": False, "debug": False, "broken": "", "other": "other" in said}
    st = [e for e in tr if e["e"] == "start"]
    en = [e for e in tr if e["e"] == "end"]
    if st and not en and r["code"] == 98:
        en = [{"err": "tasks are not run", "found": {}, "calls": [], "dirs": [], "data": []}]
    if not st or not en:
        raise MachineryError(f"no answer from the start: {j['argv']} code={r['code']} timeout={r['timeout']} {r['stderr'][-800:]}")
    st, en = st[0], en[0]
    d = st["d"]
    sub = lambda x: x.replace("{d}", d)
    ld = [e for e in tr if e["e"] == "loaded"]
    sn = [e for e in tr if e["e"] == "snap"]
    op = [e for e in tr if e["e"] == "opts"]
    env = sub(j["env"])
    seenenv = []
    if ld:
        a, b = st["before"], ld[0]["env"]
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k) or k in keys(env):
                seenenv.append({"k": list(k), "v": list(b.get(k, "\0gone"))})
    got = {e["name"]: e["got"] for e in tr if e["e"] == "mod"}
    ticks = {k: sorted({e["w"] for e in tr if e["e"] == "tick" and e["kind"] == k and e["w"] < j["end"]}) for k in ("open", "close", "minute")}
    account = bool(sn and sn[0]["account"])
    seen = []
    if sn:
        for k in st["known"]:
            seen.append("" if k["m"] == "A" and not account else sn[0]["seen"][k["m"]].get(k["s"], "gone"))
    y, mo, dd, h, mi, s, _ = j["start"]
    gate = sn[0]["gate"] if sn else ""
    found = en["found"]
    cl = []
    for c in en["calls"]:
        cl.append({"kind": "info" if c["kind"] == "warning" else c["kind"], "sink": c["sink"]})
    return {"id": i, "known": st["known"], "file": st["file"], "opts": {k: ([op[0]["opts"][k]] if op and k in op[0]["opts"] else []) for k in OPTS}, "seen": seen,
            "called": j["opts"] is not None, "up": en["err"] == "" and any(e["e"] == "ini" for e in tr), "loaded": bool(ld), "account": account, "gate": repr(gate) if gate else "",
            "dirs": en["dirs"], "data": en["data"] if j["order"] else [], "order": j["order"], "start": h * 3600 + mi * 60 + s, "end": j["end"], "open": ticks["open"], "close": ticks["close"],
            "minutes": ticks["minute"], "sb": [e["w"] for e in tr if e["e"] == "sb" and e["w"] < j["end"]], "so": [e["w"] for e in tr if e["e"] == "so" and e["w"] < j["end"]],
            "recorded": "Gate" in gate and "AnXin" not in gate, "env": list(env), "envseen": seenenv, "own": list("own"), "rest": [list("shell")] if j["shell"] else [],
            "mods": [{"has": [list(sub(h)) for h in m["has"]], "got": list(sub(got[m["name"]]))} for m in j["mods"] if m["name"] in got],
            "calls": cl, "found": found, "out": j["log"] is not None, "debug": j["debug"], "broken": j["broken"],
            "other": any(e["e"] == "other" for e in tr)}


def fam_c19(ctx):
    rng = ctx.rng
    ctx.tlc_ok("ConfigDesign", cfg(*ctx.pick((7, 3), (9, 4))), timeout=3000)
    for d in DEF if ctx.thorough else rng.sample(DEF, 2):
        notices(ctx, "ConfigDesign", cfg(6 if d == "first_wins" else 5, 2, d), d)
    jobs = []
    plain, vals = ctx.tlc_ok("ConfigDesign", cfg(9, 3, sim=True), simulate=(ctx.pick(300, 4000), 60, rng.randrange(1, 2**30)), workers=1, timeout=300)
    texts = sorted({"".join(v["text"]) for v in uniq(vals)})
    rng.shuffle(texts)
    ok = [t for t in texts if all("=" in p and p.split("=")[0].strip(" ") for p in t.split(";") if p.strip(" "))]
    for t in ok[:ctx.pick(90, 1500)] + [t for t in texts if t not in ok][:ctx.pick(8, 100)]:
        jobs.append(job(rng, env=t))
    nsim = len(jobs)
    for _ in range(ctx.pick(260, 5000)):
        jobs.append(job(rng))
    for f in ("dir", "builtin", "sync"):
        for _ in range(ctx.pick(40, 600)):
            jobs.append(job(rng, focus=f))
    for _ in range(ctx.pick(16, 300)):
        jobs.append(real(rng))
    res = ctx.jobs("c_cfg", jobs, timeout=60)
    recs = [record(i, j, r) for i, (j, r) in enumerate(zip(jobs, res))]
    bad = 0
    for a in range(0, len(recs), 1500):
        plain, vals = ctx.tlc_ok("ConfigTrace", JCFG, data={"traces.json": recs[a:a + 1500]}, timeout=1200, workers=1)
        got = {v["id"]: v["errs"] for v in vals}
        for r in recs[a:a + 1500]:
            if r["id"] not in got:
                raise MachineryError(f"record {r['id']} was not judged")
            for e in got[r["id"]]:
                bad += 1
                j = jobs[r["id"]]
                if "real" in j:
                    ctx.violate("C19", e, f"{e}: start of {j['code']} in a process of its own: {[x for x in res[r['id']]['trace'] if x['e'] == 'real'][0]['said']} "
                                + [x for x in res[r["id"]]["trace"] if x["e"] == "real"][0]["err"], {"job": j, "errs": got[r["id"]]})
                    continue
                en = [x for x in res[r["id"]]["trace"] if x["e"] == "end"]
                ctx.violate("C19", e, f"{e}: {j['argv']} options {j['opts']} ended {en[0]['err'] if en else '?'}", {"job": j, "record": r, "errs": got[r["id"]]})
    ctx.traces += len(recs)
    dist = set()
    for j, r in zip(jobs, recs):
        if "real" in j:
            dist.add(j["code"])
            continue
        dist.add((tuple(sorted("".join(x["n"]) for x in r["file"])), tuple(k for k in OPTS if r["opts"][k]), len(keys(j["env"])), "PYTHONPATH" in j["env"], r["out"],
                  tuple(sorted({(c["kind"], c["sink"]) for c in r["calls"]}))))
    ctx.cov["distinct"] = dist
    ctx.cov["starts"] = len(recs)
    ctx.cov["environment_texts_from_the_model"] = nsim
    ctx.cov["starts_with_account"] = sum(r["account"] for r in recs)
    ctx.cov["starts_refused"] = sum(not r["up"] for r in recs)
    ctx.cov["print_calls"] = sum(len(r["calls"]) for r in recs)
    ctx.cov["modules_looked_up"] = sum(len(r["mods"]) for r in recs)
    ctx.assumptions += ["blanks at the end of a value, texts that are not assignments and print(file=None) are not judged",
                        "the configuration file is Python source; relative directories inside it are not judged"]
    ctx.samples.append({"argv": jobs[nsim]["argv"], "options": jobs[nsim]["opts"], "config": jobs[nsim]["cfg"]})


FAMILIES = {"C19": fam_c19}
