"""C22: what a strategy logs and prints is kept."""
import json

from core import MachineryError
from events import notices, uniq
from sched import CFG, rdate, hms

DEF = ["truncate", "no_flush", "print_later", "own_offset", "both", "deaf", "not_elsewhere", "print_out"]
ARGS = ["x", "", "a b", "行情", "50% off", "{0}", "%s", "two\nlines", "tab\there", "\"q\"", "[INFO]", "long " * 4000, "é" * 900]


def dcfg(say, lives, others, defect="none", sim=False):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT " + ("Scenario" if sim else "NoClauseViolated")
            + f"\nCONSTANTS MaxSay = {say} MaxLives = {lives} MaxOther = {others} Defect = \"{defect}\" Sim = {str(sim).upper()}\n")


def call(rng, kind=None, lvl=None, to=None):
    kind = kind or rng.choice(["log", "log", "log", "print", "print"])
    if kind == "print":
        c = {"kind": "print", "to": to if to is not None else rng.choice(["", "", "", "", "named"]), "args": [rng.choice(ARGS + [5, 1.5, None]) for _ in range(rng.choice([0, 1, 1, 2]))]}
        if rng.random() < .25:
            c["sep"] = rng.choice(["", ",", "\n", " - "])
        if rng.random() < .25:
            c["end"] = rng.choice(["", " ", "\n\n", ";"])
        return c
    f = rng.choice(["plain", "args", "args", "two", "object", "trace", "level"]) if rng.random() < .95 or lvl else "unprintable"
    return {"kind": "log", "form": f, "lvl": lvl or (20 if f == "unprintable" else rng.choice([10, 10, 20, 20, 20, 30, 40, 50, 25, 15, 5])), "arg": rng.choice(ARGS[:4] + ARGS[5:6] + ARGS[7:])}


def acts(rng, n, log):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .8:
            out.append({"a": "say", "c": call(rng), **({"thread": True} if rng.random() < .1 else {})})
        elif r < .87 and log:
            out.append({"a": "other", "arg": rng.choice(["o", "其他", "other " * 30])})
        elif r < .94:
            out.append({"a": "look"})
        else:
            out.append({"a": "ms", "ms": rng.choice([1, 500, 1500, 61000])})
    return out


def logpath(rng):
    return rng.choice(["{d}/w/logs/x.log", "logs/x.log", "./logs/x.log", "{d}/w/logs/../logs/x.log"])


def random_job(rng):
    d = rdate(rng)
    lives, at = [], rng.randrange(3600, 40000)
    always = rng.random() < .5
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        log = logpath(rng) if always or rng.random() < .7 else ""
        n = rng.choice([1, 2, 2, 3])
        l = {"log": log, "debug": rng.random() < .4, "start": at, "at": [hms((at + 60 * (j + 1)) % 86400) for j in range(n)], "init": acts(rng, rng.randrange(0, 5), log),
             "ticks": [[acts(rng, rng.randrange(0, 6), log) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]}
        days = max(len(t) for t in l["ticks"])
        l["end"] = at + 60 * (n + 2) + (days - 1) * 86400
        end = rng.choice(["kill", "kill", "crash", "crash", "horizon", "raise", "term"])
        j = rng.randrange(n)
        t = l["ticks"][j][rng.randrange(len(l["ticks"][j]))]
        if rng.random() < .2:
            (l["init"] if rng.random() < .3 else t).insert(0, {"a": "chdir"})
        if end in ("kill", "raise", "term"):
            t.insert(rng.randrange(len(t) + 1), {"a": end})
        elif end == "crash" and log:
            l["log"] = "{d}/w/logs/x.log"
            l["crash"] = [rng.choice([rng.randrange(60), rng.randrange(25)]), rng.randrange(2)]
        lives.append(l)
        at = (l["end"] + rng.randrange(1, 7200))
    j = {"day0": [d.year, d.month, d.day], "before": rng.choice(["", "<<1|earlier|1>>\n", "<<1|no line end|1>>"]), "lives": lives}
    if j["before"] and rng.random() < .1:       # a log file that has grown large
        j["hole"] = rng.choice([11, 51, 101, 1025, 2049]) << 20
    return j


def model_job(rng, hist):
    """a behaviour of OutputDesign"""
    d = rdate(rng)
    lives, cur = [], None
    for h in hist:
        if h["e"] == "start":
            cur = {"log": "{d}/w/logs/x.log" if h["log"] else "", "debug": h["debug"], "start": 36000 + 7200 * len(lives), "at": [hms(36060 + 7200 * len(lives))], "init": [],
                   "ticks": [[[]]], "end": 36200 + 7200 * len(lives)}
            lives.append(cur)
        elif h["e"] == "say":
            (cur["init"] if rng.random() < .2 and not cur["ticks"][0][0] else cur["ticks"][0][0]).append(
                {"a": "say", "c": call(rng, h["kind"], h["lvl"] or None, None if h["kind"] == "log" else "named" if h["to"] else "")})
        elif h["e"] == "other":
            cur["ticks"][0][0].append({"a": "other", "arg": "o"})
        elif h["torn"] and cur["log"]:
            cur["crash"] = [rng.randrange(45), 1]
        else:
            cur["ticks"][0][0].append({"a": "kill"})
    return {"day0": [d.year, d.month, d.day], "before": "", "lives": lives}


def fam_c22(ctx):
    rng = ctx.rng
    for g in ctx.pick([(3, 2, 1)], [(3, 2, 1), (4, 2, 1), (3, 3, 1)]):
        ctx.tlc_ok("OutputDesign", dcfg(*g), timeout=800)
    for x in DEF if ctx.thorough else rng.sample(DEF, 2):
        notices(ctx, "OutputDesign", dcfg(3, 2, 1, x), x)
    plain, vals = ctx.tlc_ok("OutputDesign", dcfg(6, 3, 2, sim=True), simulate=(ctx.pick(60, 400), 80, rng.randrange(1, 2**30)), workers=1, timeout=300)
    hs = uniq(vals)
    jobs = [model_job(rng, h) for h in hs[:ctx.pick(60, 400)]] + [random_job(rng) for _ in range(ctx.pick(200, 1800))]
    res = ctx.jobs("c_output", jobs, timeout=60)
    traces, back = [], []
    for j, r in zip(jobs, res):
        looked = {e["k"]: e for e in r["trace"] if e["e"] == "looked"}
        if r["timeout"]:
            ctx.violate("C22", "never_ends", f"{r['trace'][-2:]} {r['stderr'][-400:]}", {"job": j})
            continue
        if r["code"] != 0 or sum(e["e"] == "dead" for e in r["trace"]) != len(j["lives"]):
            raise MachineryError(f"driver: {r['code']} {r['timeout']} {r['trace'][-3:]} {r['stderr'][-800:]}")
        ev = []
        lf = iter(j["lives"])
        up = False
        for e in r["trace"]:
            if e["e"] in ("start", "say", "ret", "other"):
                ev.append({k: v for k, v in e.items()})
            elif e["e"] == "up":
                up = True
            elif e["e"] == "look":
                x = looked[e["k"]]
                ev.append({"e": "look", "log": x["log"], "out": x["out"]})
            elif e["e"] == "dead":
                l = next(lf)
                crash = "crash" in l
                if not up and not crash:
                    ctx.violate("C22", "start_refused", f"code {e['code']} {l} {[x for x in r['trace'] if x['e'] == 'ended']} {r['stderr'][-600:]}", {"job": j})
                up = False
                if e["code"] not in (0, -9, 98) and not (crash and e["code"] == 96):
                    ctx.violate("C22", "life_ended_oddly", f"code {e['code']} {l} {r['stderr'][-600:]}", {"job": j})
        back.append(j)
        traces.append({"id": len(traces), "ev": ev})
    plain, vals = ctx.tlc_ok("OutputTrace", CFG, data={"traces.json": traces}, timeout=800)
    if len(vals) != len(traces):
        raise MachineryError(f"OutputTrace judged {len(vals)} of {len(traces)}")
    for v in vals:
        for c in v["errs"]:
            t = traces[v["id"]]
            ctx.violate("C22", c, f"event {v['at']}/{v['n']} {json.dumps(t['ev'][max(0, v['at'] - 4):v['at']])[:1500]}", {"job": back[v["id"]], "ev": t["ev"]})
    ctx.traces += len(traces)
    says = [e for t in traces for e in t["ev"] if e["e"] == "say"]
    ctx.cov.update(calls_judged=len(says), lives=sum(len(j["lives"]) for j in jobs), looks=sum(e["e"] == "look" for t in traces for e in t["ev"]),
                   behaviours_from_model=len(hs[:ctx.pick(60, 400)]), killed=sum(1 for r in res for e in r["trace"] if e["e"] == "dead" and e["code"] in (-9, 96)))
    ctx.cov["distinct"] = {json.dumps(j, sort_keys=True) for j in jobs}
    ctx.samples += jobs[:2]


RULE = {"C22": "distinct histories of lives (log option, debug option, calls, other writers, way of dying) run against the real process; every look at the file and at standard output judged by Output!Step"}
FAMILIES = {"C22": fam_c22}
