"""C13: several strategies write the same order and cancel files."""
import json

from core import MachineryError
from events import notices, uniq
from gate import CODES

DEFECTS = ["empty_before_lock", "no_flush", "no_lock", "shared", "write_anyway", "truncate", "offset_before_lock"]


def dcfg(n, k, t, hold, defect="none", sim=False):
    inv = "INVARIANT Scenario\n" if sim else "INVARIANT NoClauseViolated\nINVARIANT Progress\nVIEW View\n"
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + inv +
            f'CONSTANTS N = {n} K = {k} MaxTry = {t} Hold = "{hold}" Defect = "{defect}" Sim = {str(sim).upper()}\n')


def order(rng):
    return ["order", {"code": rng.choice(CODES), "amount": rng.choice([100, 200, 1300, -100, -5000, 7, 150, -1307, 12345678]),
                      "style": rng.choice([["market"], ["market", 9.5], ["limit", rng.choice([10, 10.5, 12.345, 3.07, 1.2345, 98765.4321])], ["none"]])}]


def some_ops(rng, k, f=None):
    out = []
    for _ in range(k):
        out.append(order(rng) if (f or rng.choice(["order", "order", "cancel"])) == "order" else ["cancel", rng.randrange(4)])
    return out


def base(rng, n, rounds, **k):
    j = {"n": n, "day0": rng.choice([[2026, 3, 2], [2028, 2, 29]]), "rounds": rounds, "coding": rng.choice(["utf-8", "gbk"]),
         "opts": {"account_no": rng.choice(["1", "66880"])}}
    j["start"] = {"kind": rng.choice(["random", "runs", "stall"]), "seed": rng.randrange(10**6), "w": rng.randrange(n), "n": rng.randrange(1, 4)}
    j["dirs"] = rng.choice(["", "", "rt", "rt/data"])
    if rng.random() < .3:
        j["opts"]["algo_type"] = rng.choice(["DMA", "TWAP"])
    j.update(k)
    return j


def with_limits(j, rng):
    r = rng.random()
    if r < .3:
        i, t = rng.choice([(0.01, 1), (0.1, 1), (0.1, 2), (0.1, 8), (0.25, 2), (0.25, 8), (0.5, 10)])
        j["opts"].update(wait_lock_internal=i, wait_lock_time_out=t)
    elif r < .4:
        j["opts"]["wait_lock_time_out"] = rng.choice([2, 10])
    return j


def limits(j):
    return int(j["opts"].get("wait_lock_time_out", 5) * 1000), int(j["opts"].get("wait_lock_internal", 0.05) * 1000)


def free_rounds(rng, n, count, scripts):
    """rounds without a foreign lock: interleavings of the model, random ones, one writer standing still"""
    out = []
    for _ in range(count):
        r = rng.random()
        if r < .5 and scripts.get(n):
            sc = {"kind": "script", "script": rng.choice(scripts[n]), "seed": rng.randrange(10**6)}
        elif r < .7:
            sc = {"kind": "random", "seed": rng.randrange(10**6)}
        elif r < .85:
            sc = {"kind": "runs", "seed": rng.randrange(10**6)}
        else:
            sc = {"kind": "stall", "w": rng.randrange(n), "n": rng.randrange(1, 8), "seed": rng.randrange(10**6)}
        f = rng.choice(["order", "order", "cancel", None])
        rd = {"ops": [some_ops(rng, rng.choice([1, 1, 2]), f) for _ in range(n)], "sched": sc, "keep": rng.random() < .25}
        if rng.random() < .1:
            rd["empty"] = "order"
        if sc["kind"] == "stall":
            if rng.random() < .5:
                rd["skew"] = 120
        else:
            rd["skew"] = rng.choice([60, 120, 200])
        out.append(rd)
    return out


def held_rounds(rng, j, n, count):
    T, I = limits(j)
    out = []
    for _ in range(count):
        f = rng.choice(["order", "order", "cancel"])
        r = rng.random()
        if r < .35:
            h = {"kind": "kept", "f": f, "ms": 0}
        else:
            h = {"kind": "until", "f": f, "ms": rng.choice([0, I // 2, 3 * I, T // 2, T - 5 * I, T - 4 * I, T - I, T, T + 2 * I]) if rng.random() < .9 else rng.randrange(T)}
            h["ms"] = max(0, h["ms"])
        h["mode"] = rng.choice(["ex", "ex", "sh"])
        out.append({"ops": [some_ops(rng, 1, rng.choice([f, f, None])) for _ in range(n)], "hold": h, "skew": max(60, I), "keep": rng.random() < .5,
                    "sched": {"kind": rng.choice(["random", "runs"]), "seed": rng.randrange(10**6)}})
    return out


def judge(ctx, prop, jobs, res):
    data, back = [], []
    steps = rounds = dfs = starts = 0
    shapes = set()
    for j, r in zip(jobs, res):
        if r["timeout"]:
            ctx.violate(prop, "writers_never_end", f"{r['trace'][-2:]} {r['stderr'][-400:]}", j)
            continue
        if r["code"] != 0:
            raise MachineryError(f"writers driver: {r['code']} timeout={r['timeout']} {r['stderr'][-800:]}")
        for e in r["trace"]:
            if e["e"] == "problem":
                ctx.violate(prop, "writer_died", f"{e['what']} {r['stderr'][-600:]}", j)
            elif e["e"] == "round":
                data.append(dict(e["rec"], id=len(data)))
                back.append((j, e))
                rounds += 1
                steps += e["steps"]
                shapes.add(tuple(e["sched"]))
            elif e["e"] == "start":
                starts += e["n"]
            elif e["e"] == "dfs":
                dfs += e["complete"]
    plain, vals = ctx.tlc_ok("WritersTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", data={"traces.json": data}, timeout=900)
    if len(vals) != len(data):
        raise MachineryError(f"WritersTrace judged {len(vals)} of {len(data)}")
    for v in vals:
        for c in v["errs"]:
            j, e = back[v["id"]]
            ctx.violate(prop, c, f"round {json.dumps(e['rec'], ensure_ascii=False)[:900]} sched {e['sched'][:60]}", {"job": j, "round": e})
    ctx.traces += len(data)
    ctx.cov.update(rounds=rounds, granted_steps=steps, distinct_interleavings=len(shapes), complete_enumerations=dfs, start_steps=starts,
                   refused=sum(o["ret"] == "" for x in data for o in x["ops"]), accepted=sum(o["ret"] not in ("", "?") for x in data for o in x["ops"]),
                   cancellations=sum(o["ret"] == "?" for x in data for o in x["ops"]),
                   held=sum(x["hold"]["kind"] != "none" for x in data), steps_seen=sorted({o for r in res for e in r["trace"] if e["e"] == "round" for o in e["ops"]}))
    ctx.samples += [b[1]["rec"] for b in ctx.rng.sample(back, min(2, len(back)))]
    return data


def fam_c13(ctx):
    rng = ctx.rng
    for sc in ([(2, 2, 1, "none"), (3, 1, 1, "until"), (2, 1, 1, "kept")] if not ctx.thorough else
               [(2, 2, 2, "none"), (3, 1, 2, "until"), (3, 2, 1, "none"), (2, 2, 1, "until"), (2, 2, 2, "kept"), (2, 3, 1, "until")]):
        ctx.tlc_ok("WritersDesign", dcfg(*sc), timeout=800, heap="8g")
    for d in (DEFECTS if ctx.thorough else rng.sample(DEFECTS, 3)):
        notices(ctx, "WritersDesign", dcfg(2, 1, 1, "until", d), d)
    scripts = {}
    for n, k in ((2, 2), (3, 1)):
        plain, vals = ctx.tlc_ok("WritersDesign", dcfg(n, k, 2, "none", sim=True), workers=1, timeout=300, simulate=(ctx.pick(60, 600), 120, rng.randrange(1, 2**30)))
        scripts[n] = [v["script"] for v in uniq(vals)]
    jobs = []
    for _ in range(ctx.pick(8, 40)):
        n = rng.choice([2, 2, 3])
        jobs.append(base(rng, n, free_rounds(rng, n, ctx.pick(40, 100), scripts)))
    for _ in range(ctx.pick(5, 30)):
        n = rng.choice([1, 2, 2, 3])
        j = with_limits(base(rng, n, []), rng)
        j["rounds"] = held_rounds(rng, j, n, ctx.pick(8, 15))
        jobs.append(j)
    # every interleaving of two writers with one request each (bounded)
    for f in ("order", "cancel"):
        ops = [[order(rng)], [order(rng)]] if f == "order" else [[["cancel", 0]], [["cancel", 0]]]
        jobs.insert(0, base(rng, 2, [{"ops": ops, "sched": {"kind": "dfs", "max": ctx.pick(400, 20000)}, "skew": 40}]))
    if ctx.thorough:
        jobs.insert(0, base(rng, 3, [{"ops": [[order(rng)] for _ in range(3)], "sched": {"kind": "dfs", "max": 12000}, "skew": 0}]))
    for j in jobs:
        j["budget"] = ctx.pick(60, 600)
    res = ctx.jobs("c_writers", jobs, timeout=ctx.pick(150, 1000))
    judge(ctx, "C13", jobs, res)


FAMILIES = {"C13": fam_c13}
RULE = {"C13": "rounds of up to three real strategies writing the same order and cancel files, their system calls on those files interleaved by the harness "
               "(interleavings of WritersDesign.tla, random ones, one writer standing still, an enumeration of all interleavings of two writers), with and without a "
               "foreign lock; results and files judged by Writers.tla"}
