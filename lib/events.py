"""C20: bus, queue and loop."""
import json

from core import MachineryError
from sched import CFG, rdate

DCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
QDEF = ["no_lock", "no_lock_push", "counter_race"]
BDEF = ["no_base", "by_class", "by_subscription", "live_list", "no_recheck", "unregister_everywhere", "unregister_one"]


def qcfg(nt, no, defect="none", sim=False):
    inv = "INVARIANT Scenario\n" if sim else "INVARIANT NothingWrong\nINVARIANT NothingLost\nVIEW View\n"
    return DCFG + inv + f"CONSTANTS NThreads = {nt} NOps = {no} Defect = \"{defect}\" Sim = {str(sim).upper()}\n"


def bcfg(ops, calls, ncb, defect="none", sim=False):
    inv = "INVARIANT Scenario\n" if sim else "INVARIANT NoClauseViolated\nVIEW View\n"
    return DCFG + inv + f"CONSTANTS MaxOps = {ops} MaxCalls = {calls} NCb = {ncb} Defect = \"{defect}\" Sim = {str(sim).upper()}\n"


def uniq(vals):
    seen, out = set(), []
    for v in vals:
        k = json.dumps(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def notices(ctx, spec, cfg, d):
    rc, plain, vals, err = ctx.tlc(spec, cfg, timeout=300)
    if rc == 0 or "is violated" not in "\n".join(plain):
        raise MachineryError(f"{spec} does not notice the defect {d}: {rc} {plain[-5:]}")


# ---------------------------------------------------------------- bus
TREES = [[0, 1, 1], [0, 1, 2], [0, 1, 2, 0, 4], [0, 0, 0], [0, 1, 1, 2, 2]]


def anc(tree):
    out = []
    for i in range(len(tree)):
        a, k = [], i + 1
        while k:
            a.append(k)
            k = tree[k - 1]
        out.append(a)
    return out


def bus_random(rng):
    tree = rng.choice(TREES)
    an = anc(tree)
    root = rng.choice(["event", "plain"])
    classes = [[p, (root if i == 0 else rng.choice(["plain", "named"])) if not p else ""] for i, p in enumerate(tree)]
    if root == "event":
        an = [a if 1 in a else a + [1] for a in an]       # everything derives from Event
    ncb = rng.randint(2, 7)
    prs = rng.sample([-3, -1, 0, 0, 1, 2, 7], rng.randint(1, 4))

    def op():
        r = rng.random()
        k = "reg" if r < .45 else "unreg" if r < .62 else "emit"
        return {"k": k, "cls": rng.randint(1, len(tree)), "cb": 0 if k == "emit" else rng.randint(1, ncb), "pr": rng.choice(prs) if k == "reg" else 0}
    acts = [[op() for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))] for _ in range(rng.choice([0, 4, 12]))]
    ops = [op() for _ in range(rng.randint(6, 26))]
    ops.append({"k": "emit", "cls": rng.randint(1, len(tree)), "cb": 0, "pr": 0})
    return {"kind": "bus", "classes": classes, "anc": an, "cbs": [rng.choice(["plain", "plain", "lambda", "method"]) for _ in range(ncb)], "ops": ops, "acts": acts}


def bus_jobs(ctx):
    rng = ctx.rng
    jobs = []
    plain, vals = ctx.tlc_ok("BusDesign", bcfg(*ctx.pick((12, 24, 4), (16, 40, 5)), sim=True), simulate=(ctx.pick(100, 1500), 120, rng.randrange(1, 2**30)), workers=1, timeout=600)
    for v in uniq(vals):
        jobs.append({"kind": "bus", "classes": [[0, rng.choice(["plain", "named"])], [1, ""], [1, ""]], "anc": anc([0, 1, 1]),
                     "cbs": [rng.choice(["plain", "lambda", "method"]) for _ in range(5)], "ops": v["ops"], "acts": v["acts"]})
    n = len(jobs)
    for _ in range(ctx.pick(250, 4000)):
        jobs.append(bus_random(rng))
    ctx.cov["bus_scripts_from_model"] = n
    return jobs


# ---------------------------------------------------------------- queue
def queue_runs(ctx):
    rng = ctx.rng
    runs = []
    for nt, no in ((2, 3), (3, 2)):
        plain, vals = ctx.tlc_ok("QueueDesign", qcfg(nt, no, sim=True), simulate=(ctx.pick(60, 600), 40, rng.randrange(1, 2**30)), workers=1, timeout=600)
        for v in uniq(vals)[:ctx.pick(60, 600)]:
            k = [10]
            progs = []
            for p in v["prog"]:
                out = []
                for o in p:
                    if o == "pop":
                        out.append(["pop"])
                    else:
                        k[0] += 1
                        out += [["new", k[0], rng.choice([5, 5, 6]), rng.choice([0, 0, 1])], ["push", k[0]]]
                progs.append(out)
            runs.append({"base": 0, "safe": True, "pre": [], "progs": progs, "order": [i - 1 for i in v["sched"] for _ in range(rng.choice([1, 1, 2]))]})
    ctx.cov["queue_schedules_from_model"] = len(runs)

    def rnd(nt):
        k = [0]

        def new():
            k[0] += 1
            return ["new", k[0], rng.choice([5, 5, 5, 6, -1]), rng.choice([0, 0, 1, -2, 2])]
        pre = []
        for _ in range(rng.randint(0, 3)):
            m = new()
            pre += [m, ["push", m[1]]]
        progs = []
        for _ in range(nt):
            p, made = [], []
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < .55:
                    m = new()
                    p.append(m)
                    made.append(m[1])
                    if rng.random() < .7:
                        p.append(["push", made.pop()])
                else:
                    p.append([rng.choice(["pop", "pop", "pop", "top", "empty"])])
            rng.shuffle(made)
            p += [["push", x] for x in made]
            progs.append(p)
        return pre, progs
    # one switch at every step
    for _ in range(ctx.pick(4, 40)):
        pre, progs = rnd(2)
        for at in range(1, 26):
            runs.append({"base": 0, "safe": True, "pre": pre, "progs": progs, "order": [0] * at + [1] * 40})
    for _ in range(ctx.pick(120, 2500)):
        pre, progs = rnd(rng.choice([2, 2, 3]))
        order, cur = [], 0
        while len(order) < 60:
            cur = rng.randrange(len(progs))
            order += [cur] * rng.choice([1, 1, 2, 3, 5, 8])
        runs.append({"base": 0, "safe": True, "pre": pre, "progs": progs, "order": order})
    # long sequential histories
    for _ in range(ctx.pick(40, 400)):
        pre, have, made = [], [], 0
        for _ in range(rng.randint(10, 60)):
            r = rng.random()
            if r < .5:
                made += 1
                pre.append(["new", made, rng.choice([0, 1, 5, 5, 5, 1000, 1001, -3]), rng.choice([0, 0, 1, 2, -1, 100])])
                have.append(made)
                if rng.random() < .8:
                    pre.append(["push", have.pop(rng.randrange(len(have)))])
            else:
                pre.append([rng.choice(["pop", "pop", "top", "empty"])])
        for x in have:
            pre.append(["push", x])
        runs.append({"base": rng.choice([0, 1789000000000]), "safe": rng.random() < .5, "pre": pre, "progs": [], "order": []})
    return runs


# ---------------------------------------------------------------- loop
def loop_job(rng):
    ids = [0]

    def msg(now):
        ids[0] += 1
        return {"k": "push", "id": ids[0], "t": max(1000, now + rng.choice([-5000, -1, 0, 0, 1, 2, 500, 1000, 60000, 3600000])), "p": rng.choice([0, 0, 0, 1, 2, -1]),
                "thread": rng.random() < .25, "data": rng.random() < .7}
    d = rdate(rng)
    sec = rng.randrange(3600, 80000)
    ms = rng.choice([0, 0, rng.randrange(1000)])
    start = sec * 1000 + ms
    t0 = start
    if rng.random() < .5:
        t0 = sec * 1000
    first = [msg(t0) for _ in range(rng.randint(1, 6))]
    acts = {}
    n = 0
    while n < len(first) + 12 and n < ids[0]:
        n += 1
        a = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            r = rng.random()
            if r < .45 and ids[0] < 18:
                a.append(msg(t0 + rng.choice([0, 0, 500, 60000])))
            elif r < .6 and ids[0] < 18:
                ids[0] += 1
                a.append({"k": "defer", "id": ids[0], "d": rng.choice([0, 1, 10, 1000, 60000])})
            elif r < .85:
                a.append({"k": "spend", "d": rng.choice([1, 3, 500, 1500, 61000])})
            elif r < .9:
                a.append({"k": "stop"})
            elif r < .94:
                a.append({"k": "fail"})
                break
        if a:
            acts[str(n)] = a
    if rng.random() < .05:
        first.append({"k": "stop"})
    return {"kind": "loop", "real": False, "start": [d.year, d.month, d.day, sec // 3600, sec // 60 % 60, sec % 60, ms], "first": first, "acts": acts,
            "limit": rng.choice([-1, -1, -1, start + 30000, start + 600]), "cfg": start}


def fam_c20(ctx):
    rng = ctx.rng
    for c in ctx.pick([(2, 2), (3, 1)], [(2, 3), (3, 2)]):
        ctx.tlc_ok("QueueDesign", qcfg(*c), timeout=800)
    ctx.tlc_ok("BusDesign", bcfg(*ctx.pick((3, 3, 2), (4, 3, 2))), timeout=850)
    for d in QDEF if ctx.thorough else rng.sample(QDEF, 1):
        notices(ctx, "QueueDesign", qcfg(2, 2, d), d)
    for d in BDEF if ctx.thorough else rng.sample(BDEF, 1):
        notices(ctx, "BusDesign", bcfg(4, 3, 2, d), d)
    # bus and loop
    jobs = bus_jobs(ctx)
    nb = len(jobs)
    jobs += [loop_job(rng) for _ in range(ctx.pick(150, 2500))]
    runs = queue_runs(ctx)
    chunk = 40
    qjobs = [{"kind": "lin", "runs": runs[i:i + chunk]} for i in range(0, len(runs), chunk)]
    res = ctx.jobs("c_events", jobs + qjobs + [{"kind": "loop", "real": True}], timeout=120)
    traces = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        if r["timeout"] or r["code"] != 0:
            # a loop that never ends or handles nothing more shows up here
            ctx.violate("C20", "bus_crash" if i < nb else "loop_hangs", f"code={r['code']} timeout={r['timeout']} {r['trace'][-3:]} {r['stderr'][-600:]}", {"job": j})
            continue
        cfg = {"anc": j["anc"]} if i < nb else {"start": j["cfg"], "limit": j["limit"]}
        traces.append({"id": i, "k": "bus" if i < nb else "loop", "cfg": cfg, "ev": [e for e in r["trace"] if e["e"] != "note"]})
    plain, vals = ctx.tlc_ok("EventsTrace", CFG, data={"traces.json": traces}, timeout=800)
    if len(vals) != len(traces):
        raise MachineryError(f"EventsTrace judged {len(vals)} of {len(traces)}")
    by = {t["id"]: t for t in traces}
    for v in vals:
        for c in v["errs"]:
            i = v["id"]
            ctx.violate("C20", c, f"event {v['at']}/{v['n']} of {by[i]['ev'][max(0, v['at'] - 6):v['at']]}", {"job": jobs[i], "events": by[i]["ev"]})
    # queue histories
    hist = []
    qres = res[len(jobs):len(jobs) + len(qjobs)]
    k = 0
    for j, r in zip(qjobs, qres):
        hs = [e for e in r["trace"] if e["e"] == "hist"]
        if r["timeout"] or r["code"] != 0 or len(hs) != len(j["runs"]):
            raise MachineryError(f"queue driver: {r['code']} {r['timeout']} {r['stderr'][-2000:]}")
        for run, h in zip(j["runs"], hs):
            if not h["ok"]:
                ctx.violate("C20", "queue_blocks", f"threads do not finish: {run}", run)
            else:
                hist.append({"id": k, "ev": h["ev"], "run": run, "steps": h["steps"]})
            k += 1
    plain, vals = ctx.tlc_ok("QueueLin", CFG, data={"traces.json": [{"id": h["id"], "ev": h["ev"]} for h in hist]}, timeout=800)
    good = {v["id"] for v in vals}
    notes = [e["what"] for r in qres for e in r["trace"] if e["e"] == "note"]
    for h in hist:
        if h["id"] not in good:
            ctx.violate("C20", "queue_not_linearisable" if h["run"]["progs"] else "queue_order", f"{h['ev']} {notes[:2]}", h["run"])
    # wake-up by another thread in real time
    r = res[-1]
    e = [x for x in r["trace"] if x["e"] == "real"]
    if r["timeout"] or not e:
        ctx.violate("C20", "foreign_push_not_handled", f"{r['code']} {r['timeout']} {r['stderr'][-500:]}", {})
    elif [g[0] for g in e[0]["got"] if isinstance(g, list)] != ["now"] or "late" in e[0]["got"] or e[0]["took"] > 20:
        ctx.violate("C20", "foreign_push_not_handled", str(e[0]), {})
    ctx.traces += len(traces) + len(hist)
    ctx.cov.update(bus_scripts=nb, loop_runs=len(jobs) - nb, queue_histories=len(hist), scheduled_steps=sum(h["steps"] for h in hist),
                   deliveries_judged=sum(1 for t in traces for e in t["ev"] if e["e"] == "call"), messages_handled=sum(1 for t in traces for e in t["ev"] if e["e"] == "h"))
    ctx.cov["distinct"] = {json.dumps(j, sort_keys=True) for j in jobs + runs}
    ctx.samples += [jobs[0], hist[0]["ev"][:10]]


RULE = {"C20": "bus scripts with nested operations and loop runs judged event by event by Events!BusStep / Events!LoopStep; concurrent queue histories under line-level thread schedules judged "
               "by linearisability search (QueueLin); the line-by-line queue mechanism and the delivery mechanism explored exhaustively within their constants"}
FAMILIES = {"C20": fam_c20}
