"""C05: calls are only accepted in their phase."""
import datetime
import json

from core import MachineryError
import sched
from sched import Scn, clock, hms, rdate, render, shifted, CFG, DAY

NAMES = ["order", "cancel", "batch", "batchcancel", "query", "sync_balance", "sync_orders", "portfolio"]


def design_cfg(mi, mt, defect="none", sim=False, inv="NoClauseViolated", view=True):
    return (f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT {inv}\n" + ("VIEW View\n" if view else "")
            + f"CONSTANTS MaxInit = {mi} MaxTask = {mt} Defect = \"{defect}\" Sim = {str(sim).upper()}\n")


def options(rng, want):
    o = {"runtime_dir": "rt"}
    if want == "on":
        o.update(use_account=rng.choice([True, True, 1, "yes"]), account_no="1", sync_balance=rng.choice([True, False]), sync_order=rng.choice([True, False]))
    elif want == "off":
        o["use_account"] = rng.choice([False, False, 0, None, ""])
        if rng.random() < .4:
            o["account_no"] = "1"
    elif want == "noacct":
        o["use_account"] = rng.choice([True, 1])
    elif want == "default":
        o["account_no"] = "1"
    o["sync_period"] = [["23:59:59", "23:59:59"]]
    if rng.random() < .3:
        o["market_period"] = [["09:30:00", "11:30:00"], ["13:00:00", "15:00:00"]]
    return o


def late_options(rng):
    o = options(rng, rng.choice(["on", "off", "default", "noacct"]))
    r = rng.random()
    if r < .3:
        o = rng.choice([{}, {"use_account": True, "account_no": "2"}, {"use_account": False}])
    elif r < .7:
        o["market_period"] = rng.choice([[["00:00:00", "23:59:00"]], [["21:00:00", "23:00:00"]], [["09:31:00", "14:59:00"]], [["10:00:00", "11:30:00"], ["13:00:00", "15:00:30"]]])
    return o


class Life:
    def __init__(self, rng, script, default):
        """script: list of {ph, k, a}"""
        self.script = script
        s = self.s = Scn(rdate(rng), 36000 + rng.randrange(3600))
        s.tag = "lifecycle"
        s.end = [s.start // DAY * DAY + 2 * DAY + 100, 777]
        init, acts = [], []
        n = nt = 0
        near = s.start + 60
        for x in script:
            if x["ph"] == "init":
                if x["k"] == "opts":
                    init.append(["act", "l_opts", x["a"], options(rng, x["a"])])
                elif x["k"] == "reg":
                    t = near + rng.choice([300, 300, 301, 900])
                    s.add(clock(t), f=f"g{n}")
                    init.append(["act", "l_reg", f"g{n}", hms(t)])
                    n += 1
                else:
                    init.append(["act", "l_api", x["a"], rng.randrange(12)])
            else:
                if x["k"] == "opts":
                    acts.append(["l_opts", x["a"], late_options(rng)])
                elif x["k"] == "reg":
                    acts.append(["l_reg", f"late{nt % 3}", rng.choice([hms(near + 120 + nt), "every_minute", "after_close", hms(near + 600), "close+5m"])])
                    nt += 1
                else:
                    acts.append(["l_api", x["a"], rng.randrange(12)])
        k = rng.randrange(len(acts) + 1)
        pos = rng.randrange(len(init) + 1)
        nreg = sum(1 for i in init[:pos] if i[1] == "l_reg")
        s.regs.insert(nreg, {"f": "f0", "x": clock(near), "how": "plain"})
        init.insert(pos, ["daily", "f0", hms(near), "plain"])
        if rng.random() < .3:
            s.add(clock(near + 400), f="f1")
            init.append(["daily", "f1", hms(near + 400), "plain"])
        for n in range(rng.choice([0, 1, 1, 2])):        # times relative to the trading periods
            x = rng.choice([shifted("open", rng.choice([0, 300, 3600, -600])), shifted("close", rng.choice([0, -300, 7, 600])), {"k": "before_open"}, {"k": "after_close"}])
            s.add(x, f=f"r{n}")
            init.append(["daily", f"r{n}", render(x), "plain"])
        s.gate = {}
        self.noinit = False
        self.default = default
        s.acts = {"f0": {"1": acts[:k], "2": acts[k:]}}
        self.init = init

    def job(self):
        j = self.s.job()
        p = j["plan"]
        p["init"] = self.init
        p["fids"] = sorted(set(p["fids"]) | {"late0", "late1", "late2"})
        if self.noinit:
            p["noinit"] = True
            p["code"] = self.code
        if self.default == "off":
            p["config"] = "SCHEDULER_SETUP_ACCOUNT = False\n"
        return j

    def life(self, i, r):
        ev = []
        gates = None
        if any(e["e"] == "init" for e in r["trace"]):
            ev.append({"e": "init"})
        for e in r["trace"]:
            k = e["e"]
            if k == "lopts":
                ev.append({"e": "opts", "want": e["want"], "ret": e["ret"]})
            elif k == "lreg" or k == "reg":
                ev.append({"e": "reg", "ret": e.get("ret") or ("ok" if e["ok"] else "raise")})
            elif k == "api0":
                gates = 0
            elif k in ("sb", "so", "gorder", "gcancel", "gsetup") and gates is not None:
                gates += 1
            elif k == "api":
                ev.append({"e": "api", "name": e["name"], "ret": e["ret"], "gates": gates})
                gates = None
            elif k == "ini":
                ev.append({"e": "up"})
            elif k == "b":
                ev.append({"e": "task"})
        ex = [e for e in r["trace"] if e["e"] == "exit"]
        how = ex[0]["how"] if ex else "horizon" if r["code"] == 98 and not r["timeout"] else f"code{r['code']}"
        ev.append({"e": "exit", "how": how})
        return {"id": i, "cfg": {"hasinit": not self.noinit, "def": self.default}, "ev": ev}

    def schedule(self, i, r):
        out, inside = [], False
        for e in r["trace"]:
            if e["e"] == "api0":
                inside = True
            elif e["e"] == "api":
                inside = False
            elif e["e"] == "b" and e["f"].startswith("late"):
                out.append(e)
            elif not (inside and e["e"] in ("g0", "sb", "so")):
                out.append(e)
        return self.s.trace(i, dict(r, trace=out))


def scripts(ctx, num):
    plain, vals = ctx.tlc_ok("LifecycleDesign", design_cfg(5, 6, sim=True, inv="Scenario", view=False),
                             simulate=(num, 14, ctx.rng.randrange(1, 2**30)), workers=1, timeout=300)
    out, seen = [], set()
    for v in vals:
        k = json.dumps(v)
        if k not in seen:
            seen.add(k)
            out.append((v["script"], v["def"]))
    return out


def fam_c05(ctx):
    rng = ctx.rng
    ctx.tlc_ok("LifecycleDesign", design_cfg(*ctx.pick((2, 2), (3, 3))), timeout=700)
    defects = ["late_options", "late_tasks", "switch_before_check", "unset_is_on", "flag_stays", "no_guard_order", "no_guard_portfolio"]
    for d in defects if ctx.thorough else rng.sample(defects, 1):
        rc, plain, vals, err = ctx.tlc("LifecycleDesign", design_cfg(2, 2, defect=d), timeout=300)
        if rc == 0 or "NoClauseViolated" not in "\n".join(plain):
            raise MachineryError(f"LifecycleDesign does not notice the defect {d}")
    lives = []
    for script, dflt in scripts(ctx, ctx.pick(120, 1500)):
        lives.append(Life(rng, script, dflt))
    # every call in every phase and every state of the switch, by itself
    for first in (None, "off", "on", "default", "noacct"):
        for ph in ("init", "run"):
            for n in NAMES + ["!reg", "!opts"]:
                sc = [{"ph": "init", "k": "opts", "a": first}] if first else []
                k = {"!reg": "reg", "!opts": "opts"}.get(n, "api")
                a = "off" if n == "!opts" else "" if n == "!reg" else n
                sc.append({"ph": ph, "k": k, "a": a})
                for dflt in (("on", "off") if ctx.thorough or first is None else ("on",)):
                    lives.append(Life(rng, sc, dflt))
    # options changed late, then every call
    for first, late in (("off", "on"), ("on", "off"), (None, "on")):
        sc = ([{"ph": "init", "k": "opts", "a": first}] if first else []) + [{"ph": "run", "k": "opts", "a": late}]
        for n in NAMES:
            sc.append({"ph": "run", "k": "api", "a": n})
        lives.append(Life(rng, sc, "on"))
    for code in ("", "initialize = None\n", "def initialize(context):\n    run_daily(f0, '10:00:00')\n\n\n", "def Process_initialize(context):\n    pass\n\n\n"):
        L = Life(rng, [], "on")
        L.noinit, L.code = True, code
        lives.append(L)
    jobs = [x.job() for x in lives]
    res = ctx.jobs("c_sched", jobs, timeout=60)
    traces = [x.life(i, r) for i, (x, r) in enumerate(zip(lives, res))]
    plain, vals = ctx.tlc_ok("LifecycleTrace", CFG, data={"traces.json": traces})
    if len(vals) != len(traces):
        raise MachineryError(f"LifecycleTrace judged {len(vals)} of {len(traces)}")
    bad = set()
    for v in vals:
        for c in v["errs"]:
            i = v["id"]
            bad.add(i)
            ctx.violate("C05", c, f"event {v['at']}/{v['n']} {traces[i]['ev'][max(0, v['at'] - 3):v['at']]} def={lives[i].default} init={lives[i].init} "
                        f"code={res[i]['code']} {res[i]['trace'][-1:]} {res[i]['stderr'][-300:]}", {"job": jobs[i], "events": traces[i]["ev"]})
    # refused calls change nothing: the schedule is that of the accepted registrations
    sch = []
    for i, (x, r) in enumerate(zip(lives, res)):
        if i not in bad and any(e["e"] == "ini" for e in r["trace"]):
            sch.append(x.schedule(i, r))
    plain, vals = ctx.tlc_ok("SchedTrace", CFG, data={"traces.json": sch}, timeout=600)
    if len(vals) != len(sch):
        raise MachineryError(f"SchedTrace judged {len(vals)} of {len(sch)}")
    by = {t["id"]: t for t in sch}
    for v in vals:
        for c in v["errs"]:
            i = v["id"]
            ctx.violate("C05", "schedule_changed:" + c.split(":")[1], f"{by[i]['ev'][v['at'] - 1]} acts={lives[i].s.acts}", {"job": jobs[i]})
    ctx.traces += len(traces) + len(sch)
    ctx.cov["api_calls_judged"] = sum(1 for t in traces for e in t["ev"] if e["e"] in ("api", "opts", "reg"))
    ctx.cov["distinct"] = {json.dumps(x.script) for x in lives}
    ctx.samples += [jobs[0]["plan"]["init"]]


RULE = {"C05": "scripts of API calls over both phases and all states of the account switch (all single calls, calls chosen by TLC's simulator on LifecycleDesign) "
               "run in the real process; refusals, gate traffic and the resulting schedule are judged by Lifecycle!Step and Sched!Step"}
FAMILIES = {"C05": fam_c05}
