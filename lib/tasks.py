"""C18: task names, listing and stopping."""
import json
import os

from core import MachineryError
from events import notices, uniq
JCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

RULE = {"C18": "distinct combinations of request, selection, kinds of entries in the table and planned changes of it"}
DEF = ["self", "listwrap", "nosee", "prefix", "abort"]
NAMES = ["demo", "demo1", "dem", "Demo", "demo 1", "策略", "策略1", "start_task", "jqtrade", "a=b", "n", "-5", "--", "name", "demo.py", "x;y", "stop_task", "1", "demo ", " demo", "demo\t", "DEMO", "demo_1"]
CODES = ["s.py", "./s.py", "strategies/demo.py", "/home/u/jqtrade/demo.py", "demo", "/a b/s.py"]
ENVS = ["A=1", "PATH=./bin:/usr/bin;PYTHONPATH=./package;USER=test", "N=-n other", "X=--name=demo", "A=b=c;D=", ""]
OUTS = ["demo.log", "/tmp/out/demo.log", "-1", "start_task"]
ALIKE = [["demo", "Demo", "dem", "demo1", "demo 1", "emo"], ["demo.py", "demo", "demo-1", "xdemo"], ["策略", "策略1", "略"], ["a=b", "a", "b"], ["1", "01", "1.0"], ["demo", "demo ", " demo", "DEMO", " "], ["a-b", "a_b", "a b", "ab"], ["start_task", "stop_task", "start"]]
LONG = {"n": "name", "c": "code", "o": "out", "e": "env"}


def cfg(n, o, defect="none", sim=False):
    inv = ["Scenario"] if sim else ["NoClauseViolated", "NeverTwoOfAName"]
    return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {i}\n" for i in inv) + \
        f"CONSTANTS NTasks = {n} NOps = {o} Defect = \"{defect}\" Sim = {str(sim).upper()}\n"


# ---------------------------------------------------------------- command lines
def negative(v):
    return v[:1] == "-" and not (v.lstrip("-").replace(".", "", 1).isdigit() and v.count("-") == 1) and " " not in v


def spell(rng, k, v, plain=False):
    """one option, in one of the forms argparse accepts"""
    full = "--" + LONG.get(k, k)
    forms = [["--%s=%s" % (full[2:], v)]]
    ab = {"name": ["--n", "--na", "--nam"], "code": ["--cod"], "out": ["--o", "--ou"], "env": ["--e", "--en"], "config": ["--con", "--conf", "--confi"]}[full[2:]]
    if not negative(v) and v != "--":
        forms += [[full, v], [rng.choice(ab), v]]
    forms.append(["%s=%s" % (rng.choice(ab), v)])
    if k in LONG:
        if not negative(v) and v != "--":
            forms += [["-" + k, v]] * 3
        if v[:1] != "=":
            forms += [["-" + k + v]] * (v != "") + [["-" + k + "=" + v]]
        if "=" in v and not negative(v):           # (argparse reads -ea=b as option "-ea": not an option, so it falls back to -e with "a=b")
            forms = [f for f in forms if f != ["-" + k + v]]
    if plain:
        return ["-" + k, v] if k in LONG else [full, v]
    return rng.choice(forms)


def options(rng, name, code=None, plain=False, config=None):
    """argument words of a start_task, in random order and spelling"""
    parts = [spell(rng, "n", name, plain), spell(rng, "c", code if code is not None else rng.choice(CODES), plain)]
    if not plain:
        if code is None and rng.random() < .4:
            parts.append(spell(rng, "o", rng.choice(OUTS)))
        if code is None and rng.random() < .4:
            parts.append(spell(rng, "e", rng.choice(ENVS)))
        if code is None and rng.random() < .3:
            parts.append(spell(rng, "config", rng.choice(["/x/conf.py", "n.py"])))
        if rng.random() < .4:
            parts.append([rng.choice(["--debug", "--d", "--deb"])])
        rng.shuffle(parts)
        if rng.random() < .15:             # given twice: the last one counts
            parts.insert(0, spell(rng, "n", rng.choice(NAMES)))
    return [w for p in parts for w in p]


def launch(rng, args):
    return rng.choice([["python", "-m", "jqtrade"], ["/usr/bin/python3", "-m", "jqtrade"], ["/usr/bin/python3", "/usr/local/bin/jqtrade"], ["python", "-u", "-m", "jqtrade"],
                       ["C:\\Python\\python.exe", "C:\\Python\\Scripts\\jqtrade.exe"], ["python3", "-mjqtrade"], ["/home/u/jqtrade/bin/python", "-m", "jqtrade"]]) + ["start_task"] + args


WRAP = [["sudo"], ["sudo", "-u", "trader"], ["timeout", "3600"], ["nohup"], ["nice", "-n", "5"], ["time"], ["/usr/bin/env", "A=1"]]
OTHER = [["tail", "-f", "jqtrade/start_task.log"], ["vim", "jqtrade/start_task.py"], ["python", "-m", "jqtrade", "get_tasks"], ["python", "-m", "jqtrade", "stop_task", "-n", "demo"],
         ["python", "-m", "jqtrade", "stop_task", "--all"], ["bash", "-c", "python -m jqtrade start_task -n demo -c s.py"], ["bash"], [], ["python", "server.py", "-n", "demo"],
         ["grep", "start_task"], ["less", "start_task", "jqtrade"], ["python", "-m", "othertrade", "start_task", "-n", "demo", "-c", "s.py"], ["sshd: demo"], ["/usr/bin/python3", "start_task.py", "--name=demo"],
         ["python", "-m", "jqtrade"], ["make", "start_tasks"], ["python", "-m", "jqtrade", "start_tasks"], ["node", "jqtrade/x.js", "-n", "start_task"], ["python", "-m", "jqtrade", "get_tasks", "start_task"]]


class Table:
    def __init__(self, rng):
        self.rng = rng
        self.procs, self.events = [], []        # events: [access, "end"/"new", entry]
        self.pids = rng.sample(range(4300000, 9000000), 300)
        self.pids.sort(key=lambda _: rng.random())
        self.init = self.add(["/sbin/init"], 0, name="systemd")

    def add(self, cmd, ppid, name=None, at=None, pid=None, **k):
        e = {"id": len(self.procs) + 1, "pid": pid or self.pids.pop(), "ppid": ppid, "cmd": cmd, "name": name or (os.path.basename(cmd[0]) if cmd else "kworker"),
             "span": "stay", "read": "ok", "late": at is not None, **k}
        if e.get("deny"):
            e["read"] = "denied" if "python" in e["name"] else "hidden"
        self.procs.append(e)
        if at is not None:
            e["span"] = "part"
            self.events.append([at, "new", e])
        return e

    def end(self, e, at):
        e["span"] = "part"
        self.events.append([at, "end", e])

    def task(self, name, wrapped=None, plain=False, parent=None, **k):
        args = options(self.rng, name, plain=plain)
        cmd = launch(self.rng, args)
        par = parent or self.init["pid"]
        ws = []
        for _ in range(wrapped or 0):
            w = self.rng.choice(WRAP) + (ws[-1]["cmd"] if ws else cmd)
            ws.append({"cmd": w})
        for w in reversed(ws):
            e = self.add(w["cmd"], par, name=w["cmd"][0])
            w["e"] = e
            par = e["pid"]
        t = self.add(cmd, par, name="python3", **k)
        return t, [w["e"] for w in ws]

    def me(self, args, wrapped=0):
        cmd = launch(self.rng, args)
        par = self.add(["bash"], self.init["pid"])["pid"]
        if wrapped:
            par = self.add(self.rng.choice(WRAP) + cmd, par, name="sudo")["pid"]
        return self.add(cmd, par, name="python3")

    def tool(self, args):
        return self.add(["python", "-m", "jqtrade"] + args, self.init["pid"], name="python3")


OPS = ["start"] * 4 + ["list"] * 2 + ["stop"] * 4


def finish(rng, t, op, names, sel=None, force=None, mine=None):
    """add the requester and build the job"""
    j = {"op": op, "sel": "", "selpid": 0, "name": "", "force": False}
    if op == "start":
        n = mine or rng.choice(names + ["fresh", rng.choice(NAMES)])
        j["name"] = n
        args = options(rng, n, code=rng.choice(["s.py", "./s.py"]))
        me = t.me(args, wrapped=rng.random() < .35)
        j["argv"] = ["start_task"] + args
    elif op == "list":
        me = t.tool(["get_tasks"])
        j["argv"] = ["get_tasks"]
    else:
        sel = sel or rng.choice(["name"] * 4 + ["pid"] * 3 + ["all"] * 2 + (["none"] if rng.random() < .2 else []))
        args = []
        if sel == "name":
            n = mine or rng.choice(names + ["nobody", rng.choice(NAMES)])
            j["name"] = n
            args = spell(rng, "n", n) if not n.startswith("-") else ["--name=" + n]
        elif sel == "pid":
            j["selpid"] = rng.choice(t.procs)["pid"] if rng.random() < .9 else t.pids.pop()
            args = rng.choice([["-p", str(j["selpid"])], ["-p%d" % j["selpid"]], ["--pid=%d" % j["selpid"]]])
        parts = [args]
        if sel == "all":                   # the other selections are ignored
            parts = [[rng.choice(["--all", "--all", "--al", "--a"])]]
            if rng.random() < .3:
                parts.append(["--name=" + (mine or rng.choice(names + ["nobody"]))])
            if rng.random() < .3:
                parts.append(["-p", str(rng.choice(t.procs)["pid"] if rng.random() < .7 else t.pids.pop())])
        force = rng.random() < .4 if force is None else force
        if force:
            parts.append([rng.choice(["-f", "--force"])])
            j["force"] = True
        rng.shuffle(parts)
        args = [w for p in parts for w in p]
        me = t.tool(["stop_task"] + args)
        j["sel"] = sel
        j["argv"] = ["stop_task"] + args
    j.update(procs=t.procs, events=t.events, me=me["pid"], parent=me["ppid"])
    return j


def random_job(rng, calm=False, op=None):
    t = Table(rng)
    group = rng.choice([NAMES] + ALIKE[:1] * 3 + ALIKE)
    names = rng.sample(group, rng.randint(1, 3))
    ts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5] * 3 + [13])):
        k = {}
        if rng.random() < .12:
            k["sig"] = "denied"
        ts.append(t.task(rng.choice(names), wrapped=rng.choice([0, 0, 0, 1, 1, 2]), plain=rng.random() < .2, **k))
    for _ in range(rng.randint(0, 5)):
        t.add(rng.choice(OTHER), rng.choice(t.procs)["pid"] if rng.random() < .3 else t.init["pid"])
    for _ in range(rng.choice([0, 0, 1, 1])):
        t.add([], t.init["pid"], name=rng.choice(["python3", "x"]), zombie=rng.choice(["raise", "empty"]))
    for _ in range(rng.choice([0, 0, 0, 1])):
        t.add(["secret"], 4, name=rng.choice(["System", "Registry", "csrss.exe"]), deny=True)
    if rng.random() < .05:
        t.add(["python", "-m", "jqtrade", "start_task", "-n", names[0], "-c", "s.py"], 4, name=rng.choice(["python3", "python.exe"]), deny=True)
    rng.shuffle(t.procs)
    if not calm:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.randint(1, 30)
            r = rng.random()
            if r < .6 and len(t.procs) > 1:
                e = rng.choice([p for p in t.procs if p is not t.init] or [t.add(["bash"], 4)])
                if e["span"] == "stay":
                    t.end(e, k)
                    if rng.random() < .4:                  # the id is taken by another program
                        t.add(["postgres"], t.init["pid"], at=k, pid=e["pid"])
            else:
                t.add(launch(rng, options(rng, rng.choice(names))), t.init["pid"], name="python3", at=k)
    return finish(rng, t, op or rng.choice(OPS), names, mine=rng.choice(group) if rng.random() < .5 else None)


def twins_job(rng, op, sel=None):
    """several tasks of one name"""
    t = Table(rng)
    for _ in range(rng.choice([2, 3, 4])):
        t.task("demo", wrapped=rng.choice([0, 0, 1]))
    return finish(rng, t, op, ["demo"], sel=sel, mine="demo")


def sim_jobs(ctx, num):
    """requests of the mechanism model's simulated behaviours: who was there throughout, who came or went during the request"""
    rng = ctx.rng
    plain, vals = ctx.tlc_ok("TasksDesign", cfg(3, 3, sim=True), simulate=(num, 220, rng.randrange(1, 2**30)), workers=1, timeout=300)
    out = []
    for v in uniq(vals):
        nm = {"a": "demo", "b": "demo1"}
        for x in v["log"]:
            t = Table(rng)
            made = {}
            for tk, q in enumerate(v["ini"], 1):
                own = x["k"] == "start" and x["t"] == tk
                w = None
                if 2 * tk - 1 in x["ever"] and not own:
                    w = t.add(rng.choice(WRAP) + launch(rng, options(rng, nm[q["name"]])), t.init["pid"], name="sudo")
                    made[2 * tk - 1] = w
                if 2 * tk in x["ever"] and not own:
                    e = t.add(w["cmd"][-(len(w["cmd"]) - 1):] if False else launch(rng, options(rng, nm[q["name"]])), w["pid"] if w else t.init["pid"], name="python3")
                    made[2 * tk] = e
            for p, e in made.items():
                if p not in x["was"]:
                    k = rng.randint(1, 12)
                    if rng.random() < .5:
                        t.end(e, k)
                    else:
                        e["span"], e["late"] = "part", True
                        t.events.append([k, "new", e])
            if x["k"] == "start":
                out.append(finish(rng, t, "start", [], mine=nm[v["ini"][x["t"] - 1]["name"]]))
            elif x["k"] == "list":
                out.append(finish(rng, t, "list", []))
            else:
                j = finish(rng, t, "stop", [], sel="name" if x["k"] == "name" else "all", mine=nm[x["n"]])
                out.append(j)
    return out


def run_job(j):
    j = dict(j)
    late = {id(e) for k, kind, e in j["events"] if kind == "new"}
    keep = ("id", "pid", "ppid", "cmd", "name", "deny", "sig", "zombie")
    thin = lambda e: {k: e[k] for k in keep if e.get(k) is not None}
    j["procs"] = [thin(e) for e in j["procs"] if id(e) not in late]
    j["events"] = [[k, kind, thin(e)] for k, kind, e in sorted(j["events"], key=lambda x: x[0])]
    return j


def record(i, j, r, words):
    def ws(cmd):
        out = []
        for w in cmd:
            if w not in words:
                words[w] = len(words) + 1
            out.append(words[w])
        return out
    ch = list
    end = [e for e in r["trace"] if e["e"] == "end"]
    acc = any(e["e"] == "accepted" for e in r["trace"])
    if not end and not acc:
        raise MachineryError(f"no answer from the request: {j['argv']} code={r['code']} timeout={r['timeout']} {r['stderr'][-500:]}")
    shown = [dict(x, name=ch(x["name"]), code=ch(x["code"]), out=ch(x["out"]), env=ch(x["env"]), debug=x["debug"] == "True") for x in (end[0]["shown"] if end else [])]
    return {"id": i, "op": j["op"], "self": j["me"], "parent": j["parent"], "name": ch(j["name"]), "sel": j["sel"], "selpid": j["selpid"], "force": j["force"],
            "procs": [{"id": p["id"], "pid": p["pid"], "ppid": p["ppid"], "cmd": ws(p["cmd"]), "span": p["span"], "read": p["read"], "sig": p.get("sig") or "ok",
                       "dead": bool(p.get("zombie"))} for p in j["procs"]],
            "accepted": acc, "err": bool(end and end[0]["err"]), "shown": shown, "sigs": [{"id": e["id"], "sig": e["sig"]} for e in r["trace"] if e["e"] == "sig"]}


def fam_c18(ctx):
    rng = ctx.rng
    ctx.tlc_ok("TasksDesign", cfg(*ctx.pick((2, 1), (2, 2))), timeout=3000)
    if ctx.thorough:
        ctx.tlc_ok("TasksDesign", cfg(3, 0), timeout=3000)
    for d in DEF if ctx.thorough else rng.sample(DEF, 1):
        notices(ctx, "TasksDesign", cfg(2, 1, d), d)
    jobs = sim_jobs(ctx, ctx.pick(60, 1200))
    nsim = len(jobs)
    for _ in range(ctx.pick(400, 6000)):
        jobs.append(random_job(rng))
    # each start form against each form of a running task of that name
    for _ in range(ctx.pick(40, 600)):
        t = Table(rng)
        n = rng.choice(NAMES)
        if rng.random() < .4:
            t.task(rng.choice(rng.choice([g for g in ALIKE if n in g] or [NAMES])), wrapped=0)
        t.task(n, wrapped=rng.choice([0, 1]))
        jobs.append(finish(rng, t, rng.choice(["start", "start", "stop"]), [], sel="name", mine=n))
    for op, sel in [("list", None), ("stop", "all"), ("stop", "name"), ("start", None), ("stop", "pid")] * ctx.pick(1, 10):
        t = Table(rng)
        for n in ["demo1"] * rng.randint(8, 30) + ["demo"]:
            t.task(n, wrapped=rng.choice([0, 0, 1]))
        jobs.append(finish(rng, t, op, [], sel=sel, mine=rng.choice(["demo", "demo1"])))
    # changes of the table placed before every access of a request
    base = [random_job(rng, calm=True, op=op) for op in ["start", "stop", "stop", "list"] for _ in range(ctx.pick(2, 16))]
    base += [twins_job(rng, "stop", s) for s in ("name", "all")] + [twins_job(rng, "list"), twins_job(rng, "start")]
    res = ctx.jobs("c_tasks", [run_job(j) for j in base], timeout=30)
    for j, r in zip(base, res):
        n = [e["n"] for e in r["trace"] if "n" in e]
        if not n:
            raise MachineryError(f"no answer from {j['argv']}: {r['stderr'][-500:]}")
        cand = [p for p in j["procs"] if p["pid"] not in (j["me"], j["parent"]) and (p.get("deny") or "start_task" in p["cmd"])]
        cand.sort(key=lambda p: p["pid"])
        for p in cand[:1] + rng.sample(cand[1:], min(len(cand[1:]), ctx.pick(0, 4))):
            for k in range(1, min(n[-1], 60) + 1):
                for reuse in (False, True):
                    procs = [dict(q) for q in j["procs"]]
                    e = [q for q in procs if q["id"] == p["id"]][0]
                    e["span"] = "part"
                    ev = [[k, "end", e]]
                    if reuse:
                        x = dict(e, id=len(procs) + 1, cmd=["postgres"], name="postgres", ppid=1, read="ok")
                        x.pop("deny", None)
                        procs.append(x)
                        ev.append([k, "new", x])
                    jobs.append(dict(j, procs=procs, events=ev))
    res2 = ctx.jobs("c_tasks", [run_job(j) for j in jobs], timeout=30)
    jobs, res = base + jobs, list(res) + list(res2)
    words = {}
    recs = [record(i, j, r, words) for i, (j, r) in enumerate(zip(jobs, res))]
    wl = [list(w) for w in words]
    seen = 0
    for a in range(0, len(recs), 2500):
        plain, vals = ctx.tlc_ok("TasksTrace", JCFG, data={"traces.json": recs[a:a + 2500], "words.json": wl}, timeout=900)
        for v in vals:
            seen += 1
            i = v["id"]
            for c in v["errs"]:
                j = jobs[i]
                ctx.violate("C18", c, f"{j['argv']} among {[(p['pid'], p['ppid'], p['cmd'], p['span']) for p in j['procs']][:12]} events {[(k, x, e['pid']) for k, x, e in j['events']]} -> "
                            f"accepted={recs[i]['accepted']} {[e for e in res[i]['trace'] if e['e'] != 'accepted']}", {"job": run_job(j), "record": recs[i]})
    if seen != len(recs):
        raise MachineryError(f"TasksTrace judged {seen} of {len(recs)}")
    ctx.traces += len(recs)
    ctx.cov["distinct"] = {json.dumps([j["op"], j["sel"], j["force"], sorted(p["span"] + p["read"] + str(bool(p.get("zombie"))) for p in j["procs"]), len(j["events"])]) for j in jobs}
    ctx.cov.update(requests=len(recs), from_the_model=nsim, starts=sum(j["op"] == "start" for j in jobs), accepted=sum(r["accepted"] for r in recs),
                   with_changes_during_the_request=sum(bool(j["events"]) for j in jobs), signals=sum(len(r["sigs"]) for r in recs), spellings=len(words))
    ctx.samples += [{"argv": j["argv"], "table": [p["cmd"] for p in j["procs"]]} for j in jobs[-2:]]
    ctx.assumptions += ["the process table is psutil's interface, replaced by the harness's (lib/fakeps.py); signals are recorded, not sent",
                        "tasks do not start other tasks; nobody else runs a command in which the word start_task follows one containing jqtrade"]


FAMILIES = {"C18": fam_c18}
