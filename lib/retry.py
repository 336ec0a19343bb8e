"""C21: retried operations."""
import json

from core import MachineryError
from sched import CFG
from events import notices

DEF = ["counter_kept", "retries_all", "one_more", "one_less", "no_pause", "swallow"]


def dcfg(n, maxes, defect="none", scen=False):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoClauseViolated\n" + ("INVARIANT Scenario\n" if scen else "")
            + f"CONSTANTS MaxLen = {n} Maxes = {{{maxes}}} Defect = \"{defect}\"\n")


def fam_c21(ctx):
    rng = ctx.rng
    n = ctx.pick(4, 6)
    plain, vals = ctx.tlc_ok("RetryDesign", dcfg(n, "0, 1, 2, 3", scen=True), timeout=600)
    for d in DEF if ctx.thorough else rng.sample(DEF, 2):
        notices(ctx, "RetryDesign", dcfg(6, "0, 1, 2, 3", d), d)
    seen, cases = set(), []

    def case(mx, pred, script, **k):
        c = {"max": mx, "pred": pred, "script": script, "pause": rng.choice([0, 1, 10, 100, 100, 5000, 3600000]), "defaults": False, "spend": rng.choice([0, 0, 7, 2500]),
             "values": rng.choice([[0], [None], [False, 1], ["", "v"], [[], {}]]), "box": rng.random() < .6, "truth": rng.randrange(2),
             "how": rng.choice(["func", "func", "method"]), "args": rng.randrange(2)}
        c.update(k)
        if c["defaults"]:
            c["pause"], c["max"] = 100, 3
        cases.append(c)
    for v in vals:
        k = json.dumps(v)
        if k not in seen:
            seen.add(k)
            case(v["max"], v["pred"], v["script"])
    model = len(cases)
    for _ in range(ctx.pick(400, 6000)):
        pred = rng.random() < .5
        mx = rng.choice([0, 1, 2, 3, 3, 5, 10, 25])
        w = rng.choice([[1, 6, 1, .3, .5], [1, 20, .5, .2, .5], [1, 1, 1, 1, 1]])
        ks = ["ok", "elig", "inel", "base", "nest"]
        if not pred:
            ks, w = ["ok", "elig", "base", "nest"], w[:2] + w[3:]
        case(mx, pred, rng.choices(ks, w, k=rng.randint(1, 40)), defaults=rng.random() < .2)
    for c in cases:         # nesting deeper than a few levels adds nothing
        d = 0
        c["script"] = [k for i, k in enumerate(c["script"]) if not (k == "nest" and c["script"][max(0, i - 3):i].count("nest") >= 3)]
    jobs = [{"cases": cases[i:i + 60]} for i in range(0, len(cases), 60)]
    res = ctx.jobs("c_retry", jobs, timeout=120)
    traces, k = [], 0
    for j, r in zip(jobs, res):
        groups = []
        for e in r["trace"]:
            if e["e"] == "case":
                groups.append([])
            elif e["e"] == "misuse":
                if not e["ok"]:
                    ctx.violate("C21", "uncallable_predicate_accepted", "simple_retry(on_exception=5)", {})
            else:
                groups[-1].append(e)
        if r["code"] != 0 or r["timeout"] or len(groups) != len(j["cases"]) or any(g[-1:] != [{"e": "done"}] for g in groups):
            c = j["cases"][max(0, len(groups) - 1)]
            ctx.violate("C21", "operation_never_ends" if r["timeout"] else "driver_failed", f"code={r['code']} {c} {r['trace'][-4:]} {r['stderr'][-500:]}", c)
            groups = groups[:-1]
        for c, g in zip(j["cases"], groups):
            traces.append({"id": len(traces), "cfg": {"max": c["max"], "pause": c["pause"], "pred": c["pred"]}, "ev": g[:-1] if g[-1]["e"] == "done" else g, "case": c})
    plain, vals = ctx.tlc_ok("RetryTrace", CFG, data={"traces.json": [{k: v for k, v in t.items() if k != "case"} for t in traces]}, timeout=800)
    if len(vals) != len(traces):
        raise MachineryError(f"RetryTrace judged {len(vals)} of {len(traces)}")
    for v in vals:
        for c in v["errs"]:
            t = traces[v["id"]]
            ctx.violate("C21", c, f"event {v['at']}/{v['n']} {t['ev'][max(0, v['at'] - 4):v['at']]} {t['case']}", t)
    ctx.traces += len(traces)
    ctx.cov.update(behaviours_from_model=model, attempts_judged=sum(1 for t in traces for e in t["ev"] if e["e"] == "try"))
    ctx.cov["distinct"] = {json.dumps(c, sort_keys=True) for c in cases}
    ctx.samples += cases[:2]


RULE = {"C21": "every outcome script the model allows up to its length (per number of extra attempts, with and without a predicate), and longer random ones, run against the real "
               "decorator under virtual time; attempts, pauses, returned values and raised errors judged by Retry!Step"}
FAMILIES = {"C21": fam_c21}
