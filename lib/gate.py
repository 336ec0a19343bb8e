"""C14, C15, C16: the built-in gate, the broker's files, crashes and days."""
import json

import balance
from core import MachineryError
from sched import CFG
from events import notices, uniq

CODES = ["000001.XSHE", "600000.XSHG", "300750.XSHE", "688981.XSHG", "000002.XSHE"]
FRESH = {"st": "new", "f": 0, "c": 0, "a": "None", "d": "0.0", "e": "", "t": "None"}
BAD = {"upd": ["short", "long", "one", "status", "qty", "emptyqty", "price", "date", "enc"], "res": ["short", "long", "one", "enc"]}


# ---------------------------------------------------------------- scenarios
# a task name and the name of another strategy that works in the same directories
TWINS = [("vtask", "Vtask"), ("vtask", "vtask2"), ("vtask.b", "vtask"), ("vtask.a", "vtask.b"), ("long_strategy_name_of_alpha_1", "long_strategy_name_of_alpha_2"),
         ("策略1", "策略2"), ("策略甲", "策略乙"), ("a b", "a_b"), ("a-b", "a_b"), ("t", "tt"), ("1", "2"), ("demo", "demo "), ("x" * 60 + "1", "x" * 60 + "2"), ("vtask_1", "vtask"),
         ("order", "orders"), ("v.task", "v_task")]


def name(rng, j):
    j["name"], j["other"] = rng.choice(TWINS)
    if rng.random() < .5:
        j["name"], j["other"] = j["other"], j["name"]
    return j


def neighbour(rng, day, at, sync=None):
    """a life of the other strategy: a few orders, perhaps a synchronisation"""
    return {"other": [order(rng, plain=True) for _ in range(rng.choice([1, 1, 2, 3]))], "start": day * 86400 + at, "sync": rng.random() < .7 if sync is None else sync,
            "act_at": at + 60, "end": day * 86400 + at + 120}


def order(rng, plain=False):
    st = rng.choice([["market"], ["limit", rng.choice([10, 10.5, 12.345, 3.07, 100.0, 0.01, 1.2345, 98765.4321])], ["none"]])
    if st[0] == "market" and not plain and rng.random() < .3:
        st = ["market", rng.choice([9.5, 11])]
    return {"code": rng.choice(CODES), "amount": rng.choice([100, 200, 1300, -100, -5000, 7, 150, -1307, 12345678]), "style": st, "side": None}


def words(rng, some):
    """a text column: mostly short"""
    return rng.choice(some) if rng.random() < .96 else rng.choice(["x", "废单 ", "no money; "]) * rng.choice([60, 90, 300, 1500, 5000])


def upd(rng, who, date, **k):
    f = rng.choice([0, 100, 200, 700, 150, 1307])
    x = {"k": "upd", "who": who, "st": rng.choice("01234578"), "f": f, "c": rng.choice([0, 0, 100, 43]), "a": rng.choice(["10.5", "0", "12.34567", "9.9990", "100", "1e1"]),
         "d": rng.choice(["1050.5", "0.0", "123456.78915", "7", "99999999.1"]), "date": date, "time": rng.choice(["093001", "145959", "000000", "112959"]),
         "msg": words(rng, ["", "", "ok", "废单 资金不足", "price limit"]).strip()}
    if rng.random() < .15:
        x["pad"] = " "
    x.update(k)
    return x


def res(rng, who, **k):
    x = {"k": "res", "who": who, "type": "1", "status": "1", "code": rng.choice(["0", "-101"]), "msg": words(rng, ["no money", "资金不足", "limit", ""]).strip()}
    x.update(k)
    return x


def some_line(rng, f, date, bad=True):
    who = ["nth", rng.randrange(6)]
    r = rng.random()
    if r < .08:
        return {"k": rng.choice(["blank", "header"]), "s": rng.choice(["", " ", "\t"])}
    if rng.random() < .25:                  # a line of another strategy's order
        who = ["other", rng.randrange(6)]
        if f == "res":
            return res(rng, who, type=rng.choice("12"), status=rng.choice("01"))
        return upd(rng, who, date, k="other")
    if f == "res":
        if bad and r < .2:
            return res(rng, who, k="bad", how=rng.choice(BAD["res"]))
        if r < .35:
            return res(rng, rng.choice(["777", "abc", who]), status="0")
        if r < .5:
            return res(rng, who, type="2", status=rng.choice("01"))
        if r < .6:
            return res(rng, rng.choice(["777", ""]))
        return res(rng, who)
    if bad and r < .2:
        return upd(rng, who, date, k="bad", how=rng.choice(BAD["upd"]))
    if r < .35:
        return upd(rng, rng.choice(["777", "abc", ""]), date, k="other")
    return upd(rng, who, date)


def some_flush(rng, f):
    r = rng.random()
    if r < .4:
        return ["flush", f, "all"]
    if r < .6:
        return ["flush", f, ["frac", rng.random()]]
    if r < .8:
        return ["flush", f, ["upto", rng.choice([1, 1, 2, 2, 3])]]
    return ["flush", f, ["bytes", rng.choice([1, 2, 30, 90, 150])]]


def broker(rng, date, bad=True):
    out = []
    for f in rng.choice([["upd"], ["upd"], ["res"], ["upd", "res"]]):
        for _ in range(rng.choice([1, 1, 2, 3])):
            out.append(["line", f, some_line(rng, f, date, bad)])
        if rng.random() < .9:
            out.append(some_flush(rng, f))
    return out


def dates(day0, n=6):
    import datetime
    return [(datetime.date(*day0) + datetime.timedelta(days=i)).strftime("%Y%m%d") for i in range(n)]


def after(day0, n):
    return dates(day0, n + 1)[n]


def day0(rng):
    return rng.choice([[2026, 3, 2], [2026, 2, 27], [2028, 2, 28], [2026, 12, 30], [2026, 6, 30]])


def base(rng, **k):
    j = {"day0": day0(rng), "coding": rng.choice(["utf-8", "utf-8", "gbk"]), "nl": rng.choice(["\n", "\n", "\r\n"]), "idseed": rng.randrange(1, 10**6),
         "opts": {"account_no": rng.choice(["1", "6688001", 70099])}}
    if rng.random() < .3:
        j["opts"]["algo_type"] = rng.choice(["DMA", "TWAP"])
    if rng.random() < .2:
        j["opts"]["counter_type"] = "UF0"
    name(rng, j)
    j.update(k)
    return j


def headers(rng):
    out = []
    for f in ("upd", "res"):
        if rng.random() < .85:
            out.append(["line", f, {"k": "header"}])
        out.append(["flush", f, rng.choice(["all", "all", "all", ["upto", 1], "touch"])])
    return out


def one_day(rng, n):
    """one process, one day: submissions, broker lines in pieces, synchronisations"""
    j = base(rng)
    dd = dates(j["day0"])
    ign = rng.random() < .75
    at = 36000
    fns = []
    late = rng.random() < .3            # orders and results before the first synchronisation
    pend = headers(rng) if not late and rng.random() < .8 else []
    if late:
        pend = [["order", order(rng)] for _ in range(rng.choice([1, 2, 3]))]
        pend += [["line", "res", rng.choice([res(rng, ["nth", k], type="2", status="1"), res(rng, ["nth", k], status="0"), res(rng, ["nth", k])])]
                 for k in range(len(pend)) if rng.random() < .7]
        pend += [["line", "upd", upd(rng, ["nth", 0], dd[0])]] if rng.random() < .3 else []
        pend += [["flush", "upd", "all"], ["flush", "res", "all"], ["sync"]]
    for t in range(rng.choice([1, 2, 3])):
        ops = pend
        pend = []
        for _ in range(n):
            r = rng.random()
            if r < .2:
                ops.append(["order", order(rng)])
                if rng.random() < .1:
                    ops[-1][1]["side"] = "short"
            elif r < .23:                  # the order file cannot be written
                if not any(o[0] in ("order", "cancel") for f in fns + [{"calls": [ops]}] for c in f["calls"] for o in c):
                    ops += [["block", "order"], ["order", order(rng)], ["unblock", "order"]]
            elif r < .29:
                ops.append(["cancel", rng.choice([["nth", rng.randrange(6)], ["nth", rng.randrange(6)], "777"])])
            elif r < .65:
                ops += broker(rng, dd[0], ign or rng.random() < .12)
            elif r < .72:
                ops += headers(rng)
            elif r < .76:
                ops.append(["ms", rng.choice([1, 999, 30000])])
            else:
                ops.append(["sync"])
        ops.append(["sync"])
        fns.append({"at": at + 60 * t, "calls": [ops]})
    j["lives"] = [{"start": at - 100, "end": at + 600, "auto": rng.random() < .5, "ignore": ign, "fns": fns}]
    if ign and rng.random() < .5:
        del j["lives"][0]["ignore"]
    return among(rng, j)


# ---------------------------------------------------------------- running and judging
def events(job, r):
    """recorded steps as the events of Gate!Step"""
    out, req, problems = [], None, []
    day = None
    done, want = 0, sum(len(f["calls"]) for l in job["lives"] for f in l.get("fns", []))
    for e in r["trace"]:
        k = e["e"]
        if k == "req":
            req = {"day": e["d"], "b": e["b"]}
        elif k in ("line", "flush", "life", "sync", "view", "sub", "can"):
            day = e["d1"]
            x = dict(e)
            if k == "sub":
                req = None
            for z in ("fsops", "fslog", "reads", "nr"):
                x.pop(z, None)
            out.append(x)
        elif k == "dead":
            x = {"e": "dead", "d": day, "d1": day, "orders": e["orders"], "req": [req] if req else [], "fresh": FRESH}
            req = None
            out.append(x)
            life = job["lives"][e["nr"]]
            ok = {98, 0} | ({96} if life.get("crash") or any(o[0] == "crash" for f in life["fns"] for c in f["calls"] for o in c) else set())
            if e["code"] not in ok:
                problems.append(("process_died", f"life {e['nr']} ended with {e['code']}"))
        elif k == "tickdone":
            done += 1
        elif k == "neighbour" and (e["code"] != 0 or e["put"] != e["want"]):
            problems.append(("neighbour", f"the other strategy ended with {e['code']}; {e['put']} of {e['want']} orders written"))
        elif k == "died":
            problems.append(("process_died", e["err"]))
    if r["code"] != 0 or r["timeout"]:
        problems.append(("driver", f"code={r['code']} timeout={r['timeout']} {r['stderr'][-400:]}"))
    return out, problems


def run(ctx, prop, jobs, tags=None, judge=True, timeout=90):
    res = ctx.jobs("c_gate", jobs, timeout=timeout)
    traces = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        ev, problems = events(j, r)
        for key, what in problems:
            if key == "driver":
                raise MachineryError(f"gate driver: {what}")
            ctx.violate(prop, key, f"{what} {r['stderr'][-300:]} {json.dumps(j)[:400]}", j)
        traces.append({"id": i, "ev": ev})
    judge_traces(ctx, prop, jobs, traces)
    return res, traces


def judge_traces(ctx, prop, jobs, traces):
    plain, vals = ctx.tlc_ok("GateTrace", CFG, data={"traces.json": traces}, timeout=900)
    if len(vals) != len(traces):
        raise MachineryError(f"GateTrace judged {len(vals)} of {len(traces)}")
    for v in vals:
        for c in v["errs"]:
            ev = traces[v["id"]]["ev"]
            ctx.violate(prop, c, f"event {v['at']}/{v['n']}: {json.dumps(ev[v['at'] - 1], ensure_ascii=False)[:700]}", {"job": jobs[v["id"]], "upto": ev[:v["at"]]})
    ctx.traces += len(traces)



# ---------------------------------------------------------------- the design model
DCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
DEF = {"eat_tail": (8, 1, 1, 1, True), "bad_line_stops": (8, 1, 1, 1, True), "error_mode_goes_on": (6, 1, 1, 1, False), "failed_sync_shows": (8, 1, 1, 1, False),
       "keep_offset": (9, 1, 1, 2, True), "write_first": (5, 1, 2, 1, True), "half_apply": (6, 1, 1, 1, True), "misattribute": (7, 2, 1, 1, True),
       "entrusted_not_rejected": (8, 1, 1, 1, True), "refused_kept": (5, 1, 2, 1, True), "refused_shown_new": (5, 1, 2, 1, True),
       "load_first_day": (7, 1, 2, 2, True)}


def dcfg(ops, ids, lives, days, ignore, ready=True, full=True, defect="none", sim=False):
    inv = "INVARIANT Scenario\n" if sim else "INVARIANT NoClauseViolated\nVIEW View\n"
    b = lambda x: str(bool(x)).upper()
    return DCFG + inv + (f"CONSTANTS MaxOps = {ops} MaxIds = {ids} MaxLives = {lives} MaxDays = {days} Ignore = {b(ignore)} Ready = {b(ready)} Full = {b(full)} "
                         f"Defect = \"{defect}\" Sim = {b(sim)}\n")


def design(ctx, scopes, defects):
    for sc in scopes:
        ctx.tlc_ok("GateDesign", dcfg(*sc), timeout=800, heap="8g")
    for d in defects:
        notices(ctx, "GateDesign", dcfg(*DEF[d], defect=d), d)


def scripts(ctx, num, depth, ids, lives, days):
    out = []
    for ign in (True, False):
        plain, vals = ctx.tlc_ok("GateDesign", dcfg(depth, ids, lives, days, ign, rng_bool(ctx), sim=True), workers=1, timeout=400,
                                 simulate=(num if ign else num // 3, depth + 1, ctx.rng.randrange(1, 2**30)))
        out += [(v["script"], ign) for v in uniq(vals)]
    return ctx.rng.sample(out, num) if len(out) > num else out


def rng_bool(ctx):
    return ctx.rng.random() < .5


def among(rng, j, where="all"):
    """lives of the other strategy before, between and after those of ours"""
    out = []
    for n, l in enumerate(j["lives"]):
        if "broker" not in l and rng.random() < .4 and (where == "all" or n == 0):
            out.append(neighbour(rng, l["start"] // 86400, l["start"] % 86400))
        out.append(l)
    j["lives"] = out
    return j


def first(j):
    return [l for l in j["lives"] if "fns" in l][0]


def from_script(rng, script, ign, nops=12):
    """a simulated behaviour of the model as a job"""
    j = base(rng)
    dd = dates(j["day0"])
    day = nl = 0
    lives, life, down = [], None, []
    ids = []

    def close(last=None):
        nonlocal life
        if last:
            life["fns"][0]["calls"][-1].append(last)
        life["end"] = day * 86400 + life["fns"][0]["at"] + 500
        life = None
    for x in script:
        op = x["op"]
        o = None
        if op == "start":
            if down:
                lives.append({"broker": down, "day": day})
                down = []
            at = 36000 + 700 * nl
            nl += 1
            life = {"start": day * 86400 + at - 100, "auto": rng.random() < .5, "ignore": ign, "fns": [{"at": at, "calls": [[]]}]}
            lives.append(life)
        elif op == "die":
            close(rng.choice([["exit"], ["term"]]))
        elif op == "midnight":
            if down:
                lives.append({"broker": down, "day": day})
                down = []
            day += 1
            if life:
                life["fns"][0]["calls"].append([])
        elif op == "sub":
            o = ["order", order(rng, plain=True)]
        elif op == "subdie":
            life["fns"][0]["calls"][-1].append(["crash", rng.randrange(nops + 1), 0, ["order", order(rng, plain=True)]])
            close(["exit"])
        elif op == "subfull":
            o = ["full", 0, rng.randrange(2), ["order", order(rng, plain=True)], "orders" if x["saved"] else "rt"]
        elif op == "sync":
            o = ["sync"]
        elif op == "line":
            f, k = x["f"], x["k"]
            who = ["nth", "abc".index(x["id"])] if x["id"] else "777"
            if k == "upd":
                ln = upd(rng, who, dd[day])
            elif k == "rej":
                ln = res(rng, who)
            elif k == "bad":
                ln = (upd(rng, who, dd[day], k="bad", how=rng.choice(BAD["upd"] if x["id"] else ["short", "enc", "one"])) if f == "upd"
                      else res(rng, who, k="bad", how=rng.choice(BAD["res"])))
            else:
                ln = rng.choice([{"k": "header"}, {"k": "blank"}, upd(rng, "777", dd[day], k="other") if f == "upd" else res(rng, "777", status="0")])
                if x["id"] and f == "res":
                    ln = rng.choice([res(rng, who, type="2", status="1"), res(rng, who, type="2", status="1"), res(rng, who, type="2", status="0"), res(rng, who, status="0")])
            o = ["line", f, ln]
        elif op == "flush":
            o = ["flush", x["f"], ["lines", x["n"], x["tail"], rng.random()]]
        if o:
            if life:
                life["fns"][0]["calls"][-1].append(o)
            else:
                down.append(o)
    if life:
        close()
    j["lives"] = lives
    return among(rng, j)


# ---------------------------------------------------------------- C14
def every_cut(rng, f, coding, nl, ign=True):
    """a line cut at every byte, synchronised before and after it is complete"""
    j = base(rng, coding=coding, nl=nl)
    dd = dates(j["day0"])
    ops = [["order", order(rng)] for _ in range(3)] + [["flush", "upd", "touch"], ["flush", "res", "touch"], ["sync"]]
    n = 150 if f == "upd" else 60
    for p in range(n):
        ops.append(["line", f, upd(rng, ["nth", p % 3], dd[0], msg="废单" if p % 5 == 0 else "") if f == "upd" else res(rng, ["nth", p % 3])])
        if rng.random() < .3:
            ops.append(["line", f, some_line(rng, f, dd[0], False)])
        ops += [["flush", f, ["bytes", p + 1]], ["sync"], ["flush", f, "all"], ["sync"]]
    cut = len(ops) // 2
    j["lives"] = [{"start": 35900, "end": 37000, "auto": True, "fns": [{"at": 36000, "calls": [ops]}]}]
    return j


def burst(rng, n, f=None):
    """very many lines between two synchronisations, the last of them for orders of ours"""
    j = base(rng)
    dd = dates(j["day0"])
    ops = [["order", order(rng)] for _ in range(3)] + headers(rng) + [["sync"]]
    f = f or rng.choice(["upd", "res"])
    for k in range(n):
        if f == "upd":
            ops.append(["line", f, upd(rng, ["nth", rng.randrange(3)], dd[0]) if rng.random() < .3 else upd(rng, "777", dd[0], k="other")])
        else:
            ops.append(["line", f, res(rng, ["nth", 0], type="2") if rng.random() < .3 else res(rng, "777")])
    ops += [["line", "upd", upd(rng, ["nth", 1], dd[0])], ["line", "res", res(rng, ["nth", 2])], ["flush", "upd", "all"], ["flush", "res", "all"], ["sync"]]
    ops += [["line", "upd", upd(rng, ["nth", 0], dd[0])], ["flush", "upd", "all"], ["sync"]]
    j["lives"] = [{"start": 35900, "end": 37000, "auto": rng.random() < .5, "fns": [{"at": 36000, "calls": [ops]}]},
                  {"start": 37100, "end": 38000, "auto": rng.random() < .5, "fns": [{"at": 37500, "calls": [[["sync"]]]}]}]
    return j


def after_the_fact(rng):
    """a rejection that arrives after an update, and the other way round"""
    j = base(rng)
    dd = dates(j["day0"])
    ops = [["flush", "upd", "touch"], ["flush", "res", "touch"]] + [["order", order(rng)] for _ in range(2)]
    for _ in range(rng.choice([2, 3, 5])):
        f = rng.choice(["upd", "res"])
        ops += [["line", f, upd(rng, ["nth", rng.randrange(2)], dd[0]) if f == "upd" else res(rng, ["nth", rng.randrange(2)])], ["flush", f, "all"], ["sync"]]
    j["lives"] = [{"start": 35900, "end": 37000, "auto": rng.random() < .5, "fns": [{"at": 36000, "calls": [ops]}]}]
    return j


C14_DEFECTS = ["eat_tail", "bad_line_stops", "error_mode_goes_on", "failed_sync_shows", "half_apply", "misattribute", "entrusted_not_rejected"]


def fam_c14(ctx):
    rng = ctx.rng
    design(ctx, [(7, 2, 1, 1, True), (7, 2, 1, 1, False)] if not ctx.thorough else [(9, 2, 1, 1, True, True, False), (9, 2, 1, 1, False, True, False), (8, 2, 2, 1, True, False, False), (8, 2, 1, 1, True), (8, 2, 1, 1, False)],
           C14_DEFECTS if ctx.thorough else rng.sample(C14_DEFECTS, 1))
    sc = scripts(ctx, ctx.pick(250, 2500), ctx.pick(18, 24), 3, 1, 1)
    jobs = [from_script(rng, s, ign) for s, ign in sc]
    jobs += [one_day(rng, rng.choice([4, 8, 14])) for _ in range(ctx.pick(150, 2500))]
    jobs += [burst(rng, n) for n in ctx.pick((130, 300, 1100), (130, 300, 1100, 300, 500, 2100, 3000, 260, 130))]
    jobs += [burst(rng, 2600, "upd"), burst(rng, 1300, "res")]
    jobs += [after_the_fact(rng) for _ in range(ctx.pick(12, 200))]
    for c, nl in (("utf-8", "\n"), ("gbk", "\r\n")) if not ctx.thorough else [(a, b) for a in ("utf-8", "gbk") for b in ("\n", "\r\n")]:
        jobs += [every_cut(rng, "upd", c, nl), every_cut(rng, "res", c, nl)]
    res, traces = run(ctx, "C14", jobs)
    stats(ctx, jobs, traces)
    ctx.cov["scripts_from_model"] = len(sc)


def stats(ctx, jobs, traces):
    ctx.cov["syncs_judged"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "sync")
    ctx.cov["distinct"] = {json.dumps(j) for j in jobs}
    ctx.samples += [jobs[0]]


# ---------------------------------------------------------------- C15
def crash_base(rng, op):
    """a process with some orders and updates; then the operation that will be interrupted; then a restart"""
    j = base(rng)
    dd = dates(j["day0"])
    ops = headers(rng) if rng.random() < .8 else [["flush", "upd", "touch"], ["flush", "res", "touch"]]
    for _ in range(rng.choice([0, 1, 2])):
        ops.append(["order", order(rng, plain=True)])
    if rng.random() < .7:
        ops += broker(rng, dd[0])
    if rng.random() < .3 and not any(o[0] == "order" for o in ops):
        ops = [["block", "order"], ["order", order(rng, plain=True)], ["unblock", "order"]] + ops
    if rng.random() < .5:
        ops.append(["sync"])
    if op == "sync":
        ops += broker(rng, dd[0])
        x = ["sync"]
    elif op == "order":
        x = ["order", order(rng, plain=True)]
    elif op == "refused":
        x = ["order", dict(order(rng, plain=True), side="short")]
    else:
        x = ["cancel", ["nth", 0]]
    down = broker(rng, dd[0]) if rng.random() < .6 else []
    ops2 = [["sync"]] if rng.random() < .5 else []
    for _ in range(rng.choice([0, 1, 2])):
        ops2 += rng.choice([[["sync"]], broker(rng, dd[0]), [["sync"]], [["order", order(rng, plain=True)]], [["cancel", ["nth", rng.randrange(3)]]]])
    if rng.random() < .5:
        ops2 += [["order", order(rng, plain=True)], ["cancel", ["nth", rng.randrange(4)]]]
    ops2.append(["sync"])
    auto = rng.random() < .6
    j["lives"] = [{"start": 35900, "end": 36500, "auto": auto, "fns": [{"at": 36000, "calls": [ops + [x]]}]}]
    if down:
        j["lives"].append({"broker": down, "day": 0})
    j["lives"].append({"start": 36600, "end": 37300, "auto": rng.random() < .7, "fns": [{"at": 36800, "calls": [ops2]}]})
    if rng.random() < .3:             # the day's files are long already
        j["lives"].insert(0, {"broker": [["fill", f, rng.choice([300, 1500, 4000])] for f in rng.sample(["order", "cancel"], rng.choice([1, 2]))], "day": 0})
    return among(rng, j, "first")


def states_base(rng):
    """orders in every state the broker can report, then an end of some kind and a restart"""
    j = base(rng)
    dd = dates(j["day0"])
    sts = [(s, f, c) for s in "01234578" for f in (0, 100) for c in (0, 100) if rng.random() < .4] or [("3", 100, 0)]
    rng.shuffle(sts)
    sts = sts[:9]
    ops = headers(rng)
    ops += [["order", order(rng, plain=True)] for _ in range(len(sts) + 2)]
    for n, (s, f, c) in enumerate(sts):
        ops.append(["line", "upd", upd(rng, ["nth", n], dd[0], st=s, f=f, c=c)])
        if rng.random() < .2:
            ops.append(["line", "res", res(rng, ["nth", n])])
    ops += [["line", "res", res(rng, ["nth", len(sts)])], ["flush", "upd", "all"], ["flush", "res", "all"]]
    if rng.random() < .8:
        ops.append(["sync"])
    ops.append(rng.choice([["term"], ["exit"], ["order", order(rng, plain=True)]]))
    ops2 = [["sync"]]
    if rng.random() < .5:
        ops2 += [["line", "upd", upd(rng, ["nth", n], dd[0])] for n in rng.sample(range(len(sts)), 1)] + [["flush", "upd", "all"], ["sync"]]
    j["lives"] = [{"start": 35900, "end": 36500, "auto": rng.random() < .5, "fns": [{"at": 36000, "calls": [ops]}]},
                  {"start": 36600, "end": 37300, "auto": rng.random() < .7, "fns": [{"at": 36800, "calls": [ops2]}]}]
    return j


def wrap(j, w):
    """the interrupted operation of a job of crash_base, wrapped"""
    j = json.loads(json.dumps(j))
    c = first(j)["fns"][0]["calls"][0]
    c[-1] = w + [c[-1]]
    return j


def fam_c15(ctx):
    rng = ctx.rng
    design(ctx, [(7, 2, 2, 1, True)] if not ctx.thorough else [(9, 2, 2, 1, True, True, False), (8, 2, 3, 1, True, False, False), (8, 2, 2, 1, True), (8, 2, 2, 1, False), (7, 2, 3, 1, True, False)],
           ["write_first", "refused_kept", "refused_shown_new"])
    bases = [crash_base(rng, op) for op in ["order", "order", "sync", "sync", "cancel", "refused"] * ctx.pick(2, 20)]
    starts = [crash_base(rng, "order") for _ in range(ctx.pick(4, 40))]
    for j in starts:              # the second life dies while it starts up, then a third one follows
        third = json.loads(json.dumps(j["lives"][-1]))
        for k, t in (("start", 700), ("end", 700)):
            third[k] += t
        third["fns"][0]["at"] += 700
        j["lives"][-1]["auto"] = True
        j["lives"].append(third)
    counted = [wrap(j, ["count"]) for j in bases]
    for j in starts:
        j["lives"][-2]["crash"] = [100000, 0]
    res, traces = run(ctx, "C15", counted + starts)
    jobs = []
    for j, r in zip(bases, res):
        n = [e["fsops"] for e in r["trace"] if "fsops" in e]
        for k in range(n[0] + 1 if n else 0):
            log = [e["fslog"] for e in r["trace"] if "fslog" in e][0]
            for torn in (0, 1) if k < n[0] and log[k].startswith("write") else (0,):
                jobs.append(wrap(j, ["crash", k, torn]))
    nfull = 0
    for j, r in zip(bases, res):      # the disk is full for a while
        log = [e["fslog"] for e in r["trace"] if "fslog" in e]
        if first(j)["fns"][0]["calls"][0][-1][0] in ("order", "cancel"):
            for k in [k for k, x in enumerate(log[0] if log else []) if x.startswith("write")] + ["rt", "orders"]:
                x = wrap(j, ["full", 0 if isinstance(k, str) else k, rng.randrange(2)])
                if isinstance(k, str):        # (the two directories may be on different disks)
                    first(x)["fns"][0]["calls"][0][-1].append(k)
                first(x)["fns"][0]["calls"][0] += rng.choice([[], [["sync"]], [["order", order(rng, plain=True)]], [["sync"], ["order", order(rng, plain=True)], ["cancel", ["nth", rng.randrange(3)]]],
                                                              [["cancel", ["nth", 0]], ["crash", rng.randrange(12), rng.randrange(2), ["order", order(rng, plain=True)]]]])
                jobs.append(x)
                nfull += 1
    ctx.cov["disk_full_points"] = nfull
    for j, r in zip(starts, res[len(bases):]):
        n = [e["n"] for e in r["trace"] if e["e"] == "startops"]
        for k in range(n[0] if n else 0):
            for torn in (0, 1):
                x = json.loads(json.dumps(j))
                x["lives"][-2]["crash"] = [k, torn]
                jobs.append(x)
    npoints = len(jobs)
    sc = scripts(ctx, ctx.pick(200, 2500), ctx.pick(16, 22), 3, 3, 1)
    jobs += [from_script(rng, s, ign) for s, ign in sc]
    jobs += [states_base(rng) for _ in range(ctx.pick(14, 150))]
    r2, t2 = run(ctx, "C15", jobs)
    ctx.cov["crash_points"] = npoints
    ctx.cov["scripts_from_model"] = len(sc)
    ctx.cov["restarts"] = sum(1 for t in t2 for e in t["ev"] if e["e"] == "dead")
    stats(ctx, jobs, traces + t2)


# ---------------------------------------------------------------- C16
def days_random(rng):
    """lives over several days"""
    j = base(rng)
    dd = dates(j["day0"], 8)
    lives = []
    day = 0
    nl = 0
    while day < 3 and nl < 4:
        span = rng.choice([1, 2, 3]) if nl == 0 else rng.choice([1, 1, 2])
        at = 36000 + 700 * nl
        nl += 1
        calls = []
        auto = rng.random() < .5
        d = day
        for k in range(span):
            ops = headers(rng) if rng.random() < .85 else []
            for _ in range(rng.choice([1, 3, 6])):
                r = rng.random()
                if r < .3:
                    ops.append(["order", order(rng)])
                elif r < .4:
                    ops.append(["cancel", ["nth", rng.randrange(8)]])
                elif r < .75:
                    ops += broker(rng, dd[d])
                else:
                    ops.append(["sync"])
            ops.append(["sync"])
            calls.append(ops)
            d += 1
        if rng.random() < .3:      # midnight passes within a task
            calls[-1] += [["midnight", rng.choice([-1, 0, 1, 1000])]]
            if calls[-1][-1][1] == -1:
                calls[-1] += [["order", order(rng)], ["ms", 2]]
            calls[-1] += [rng.choice([["sync"], ["order", order(rng)], ["cancel", ["nth", 0]]])] + headers(rng) + [["order", order(rng)]] + broker(rng, dd[d]) + [["sync"]]
            crossed = True
        else:
            crossed = False
        end = (d - 1) * 86400 + at + 300 + (86400 if crossed else 0)
        lives.append({"start": day * 86400 + at - 100, "end": max(end, (d - 1) * 86400 + at + 300), "auto": auto, "fns": [{"at": at, "calls": calls}]})
        if crossed:
            lives[-1]["end"] = d * 86400 + 3600
        day = d if crossed or rng.random() < .6 else d - 1
    j["lives"] = lives
    return among(rng, j)


def cross_base(rng, op):
    """an operation during which midnight passes; then the new day, then a restart"""
    j = base(rng)
    dd = dates(j["day0"])
    at = 86400 - 600
    ops = [["order", order(rng)] for _ in range(rng.choice([0, 1, 2]))] + headers(rng) + broker(rng, dd[0])
    if rng.random() < .5:
        ops.append(["sync"])
    ops += broker(rng, dd[0])
    ops.append(["midnight", -1])
    x = {"order": ["order", order(rng, plain=True)], "sync": ["sync"], "cancel": ["cancel", ["nth", 0]]}[op]
    post = []
    for _ in range(rng.choice([1, 2, 3])):
        post += rng.choice([[["sync"]], headers(rng), [["order", order(rng)]], broker(rng, dd[1]), [["cancel", ["nth", rng.randrange(4)]]]])
    post += [["flush", "upd", "touch"], ["flush", "res", "touch"], ["sync"]]
    n = len(ops)
    ops += [x] + post
    j["lives"] = [{"start": at - 200, "end": 86400 + 3600, "auto": False, "fns": [{"at": at, "calls": [ops]}]},
                  {"start": 86400 + 7200, "end": 86400 + 9000, "auto": rng.random() < .5, "fns": [{"at": 8000, "calls": [[["sync"]] + broker(rng, dd[1]) + [["sync"]]]}]}]
    return j, n


def far_apart(rng, gap=None):
    """one process, or two, whose requests are whole weeks, months or years apart"""
    import datetime
    j = base(rng)
    a = datetime.date(*j["day0"])
    month = next(n for n in range(28, 400) if (a + datetime.timedelta(days=n)).day == a.day)
    year = next(n for n in range(360, 2000) if (a + datetime.timedelta(days=n)).strftime("%m%d") == a.strftime("%m%d"))
    gap = gap or rng.choice([7, 14, 2, 5, month, year])
    dd = [after(j["day0"], 0), after(j["day0"], gap)]

    def day(d):
        ops = headers(rng) if rng.random() < .5 else [["flush", "upd", "all"], ["flush", "res", "all"]]
        for _ in range(rng.choice([1, 2, 4])):
            ops += rng.choice([[["order", order(rng)]], broker(rng, dd[d]), [["sync"]], [["cancel", ["nth", rng.randrange(4)]]]])
        return ops + [["flush", "upd", "all"], ["flush", "res", "all"], ["sync"]]
    one = [["order", order(rng)]] + day(0)
    two = rng.choice([[["order", order(rng)]], [["sync"]] if rng.random() < .5 else [["cancel", ["nth", 0]]]]) + day(1)
    end = lambda d: 86400 * d + 37000
    life = lambda d, calls: {"start": 86400 * d + 35900, "end": end(d + len(calls) - 1), "auto": False, "fns": [{"at": 36000, "calls": calls}]}
    if rng.random() < .6:
        j["lives"] = [life(0, [one] + [[]] * (gap - 1) + [two])]
    else:
        j["lives"] = [life(0, [one]), life(gap, [two])]
    if rng.random() < .5:
        x = life(gap, [day(1)])
        x["start"] += 2000
        x["end"] += 2000
        x["fns"][0]["at"] += 2000
        j["lives"].append(x)
    return j, gap


def fam_c16(ctx):
    rng = ctx.rng
    design(ctx, [(7, 1, 2, 2, True)] if not ctx.thorough else [(9, 1, 2, 2, True, True, False), (8, 2, 2, 3, True, True, False), (8, 2, 2, 2, False, False, False), (8, 1, 2, 2, True), (8, 2, 2, 2, True)],
           ["keep_offset", "load_first_day"] if ctx.thorough else [rng.choice(["keep_offset", "load_first_day"])])
    bases = [cross_base(rng, op) for op in ["order", "order", "sync", "cancel"] * ctx.pick(5, 25)]

    def put(b, w):
        j, n = b
        j = json.loads(json.dumps(j))
        c = first(j)["fns"][0]["calls"][0]
        c[n] = w + [c[n]]
        return j
    counted = [put(b, ["reads"]) for b in bases]
    rnd = [days_random(rng) for _ in range(ctx.pick(120, 2500))]
    far = [far_apart(rng) for _ in range(ctx.pick(24, 300))] + [far_apart(rng, 7) for _ in range(4)]
    rnd += [j for j, _ in far]
    ctx.cov["days_between_requests"] = sorted({g for _, g in far})
    sc = scripts(ctx, ctx.pick(180, 2000), ctx.pick(18, 24), 3, 2, 3)
    rnd += [from_script(rng, s, ign) for s, ign in sc]
    res, traces = run(ctx, "C16", counted + rnd)
    jobs = []
    for b, r in zip(bases, res):
        n = [e["reads"] for e in r["trace"] if "reads" in e]
        for k in range(n[0] if n else 0):
            jobs.append(put(b, ["jump", k, rng.choice([0, 0, 1, 50])]))
    r2, t2 = run(ctx, "C16", jobs)
    ctx.cov["midnight_points"] = len(jobs)
    ctx.cov["scripts_from_model"] = len(sc)
    ctx.cov["days_seen"] = sum(len({e["d"] for e in t["ev"]}) for t in traces + t2)
    # each day's asset and position files
    bal = [balance.random_job(rng, rng.choice([1, 2]), days=rng.choice([2, 3])) for _ in range(ctx.pick(14, 120))]
    balance.judge(ctx, "C16", bal, ctx.jobs("c_balance", [{k: v for k, v in j.items() if k != "fs"} for j in bal], timeout=90))
    stats(ctx, rnd + jobs, traces + t2)


FAMILIES = {"C14": fam_c14, "C15": fam_c15, "C16": fam_c16}
RULE = {"C14": "TLC-simulated scripts of GateDesign, random scripts and a line cut at every byte, run through the real process with the built-in gate; "
               "every synchronisation judged by Gate!Step",
        "C15": "the process dies before and half-way through every mutating system call of submissions, synchronisations, cancellations and start-ups, then restarts; "
               "TLC-simulated scripts with crashes; all judged by Gate!Step",
        "C16": "lives over several days, midnight at every reading of the clock within a request; TLC-simulated scripts over three days; judged by Gate!Step; "
               "balance files of two or three days, judged by Balance.tla"}
