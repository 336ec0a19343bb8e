"""Account family: C07 portfolio, C08 order book, C09 snapshots, C10 submissions, C11 reservations, C12 cancels."""
import json

from core import MachineryError

CODES = ["000001.XSHE", "600000.XSHG", "000002.XSHE", "688001.XSHG"]
BADCODES = ["000001.xshe", "000001", "00000a.XSHE", "", ".XSHE", "000001.SZ", "000001XSHE", "XSHE.000001", "000001.XSHE ", "SH600000", "-00001.XSHE",
            "00.001.XSHE", "000001.XSHEX", "000001.XHKG", " 000001.XSHE", "1e5.XSHG"]
GATEFAIL = ["runtime", "key", "os", "odd", "timeout", "param", "empty"]
ST = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
EXT = ["77", "ext-1", "88", "3", "003"]
PRICES = [0, 10, 10.5, 9.99, 0.01, 1234.567]

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Verdict\n"


def r_req(rng, valid=None, batch=False):
    if valid is None:
        valid = rng.random() < .75
    r = {"code": rng.choice(CODES[:3]), "amount": rng.choice([100, 200, 300, 1, 1000, 500]) * rng.choice([1, -1, -1])}
    p = rng.choice(PRICES)
    r["style"] = rng.choice([["none"], ["none"], ["market"], ["market", p], ["limit", p], ["limit", p]])
    r["side"] = rng.choice([["none"], ["none"], ["none"], ["long", "long"], ["short", "short"]])
    if not valid:
        k = rng.choice(["code", "code", "codet", "amount", "amountt", "style", "side"] + (["nocode", "noamount"] if batch else []))
        if k == "code":
            r["code"] = rng.choice(BADCODES)
        elif k == "codet":
            r["code"] = rng.choice([None, 600000, 1.5])
        elif k == "amount":
            r["amount"] = 0
        elif k == "amountt":
            r["amount"] = rng.choice(["100", 100.0, 100.5, None, [100], -0.5, "-100"])
        elif k == "style":
            r["style"] = ["bad", rng.choice(["limit", "market", 10.5, "class", "base", [10]])]
        elif k == "side":
            r["side"] = ["bad", rng.choice(["buy", "LONG", "sell", "Short", "both", "open", 2])]
        elif k == "nocode":
            del r["code"]
        elif k == "noamount":
            del r["amount"]
    return r


def r_pos(rng, code):
    amt = rng.choice([0, 100, 500, 1000, 300, 12345])
    p = {"code": code, "amount": amt, "available_amount": rng.choice([amt, amt, amt // 2, 0, min(amt, 100), amt + 100]), "avg_cost": rng.choice([10.5, 0, 11, 9.999])}
    r = rng.random()
    if r < .25:
        p["side"] = "short"
    elif r < .6:
        p["side"] = "long"
    if rng.random() < .8:
        p["last_price"] = rng.choice([10.1, 0, 12])
    if rng.random() < .9:
        p["position_value"] = rng.choice([0, 1010, 99999, 5000, 777])
    return p


def r_balance(rng, good=None):
    if good is None:
        good = rng.random() < .65
    codes = rng.sample(CODES, rng.choice([0, 1, 2, 2, 3, 4]))
    if rng.random() < .004:          # a large portfolio
        codes += ["%06d.XSHE" % (300000 + k) for k in range(rng.choice([60, 130]))]
    pos = []
    for c in codes:
        pos.append(r_pos(rng, c))
        if rng.random() < .25:
            q = r_pos(rng, c)
            q["side"] = "short" if pos[-1].get("side", "long") == "long" else "long"
            pos.append(q)
    rng.shuffle(pos)
    cash = {rng.choice(["total_asset", "total_assert"]): rng.choice([0, 100000, 123456.78, 1]), "available_cash": rng.choice([0, 0, 5000, 1234.5, -250.5]),
            "locked_cash": rng.choice([0, 0, 300, 12.25, -1])}
    if rng.random() < .2:            # a figure left out
        del cash[rng.choice(list(cash))]
    rep = {"cash": cash, "positions": pos}
    if good:
        return ["ok", rep]
    k = rng.choice(["raise", "raise", "none", "nocash", "nopos", "badpos", "badpos", "badpos", "posnone", "cashnone", "empty"])
    if k == "raise":
        return ["raise", rng.choice(GATEFAIL)]
    if k == "none":
        return ["bad", None]
    if k == "empty":
        return ["bad", {}]
    if k == "nocash":
        del rep["cash"]
    if k == "nopos":
        del rep["positions"]
    if k == "posnone":
        rep["positions"] = None
    if k == "cashnone":
        rep["cash"] = None
    if k == "badpos":
        bad = r_pos(rng, rng.choice(CODES))
        m = rng.choice(["code", "amount", "available_amount", "avg_cost", "side", "type"])
        if m == "side":
            bad["side"] = "sideways"
        elif m == "type":
            bad = 17
        else:
            del bad[m]
        pos.insert(rng.choice([0, len(pos), len(pos)]), bad)
    return ["bad", rep]


def r_line(rng):
    who = rng.random()
    ln = {"order_id": ["nth", rng.randrange(8)] if who < .75 else rng.choice(EXT),
          "code": rng.choice(CODES[:3]), "price": rng.choice(["same", "same", 9.5, 10.01]), "amount": rng.choice(["same", "same", "same", 100, 400]),
          "action": rng.choice(["open", "close"]), "status": rng.choice(ST), "style": rng.choice(["market", "limit"]),
          "create_time": {"$dt": [2026, 3, 2, 9, 31, rng.randrange(60)]}}
    if rng.random() < .2:
        ln["status"] = {"$st": ln["status"]}
    if rng.random() < .9:
        ln["filled_amount"] = rng.choice([0, 0, 100, 50, 300])
    if rng.random() < .8:
        ln["canceled_amount"] = rng.choice([0, 0, 100, 20])
    if rng.random() < .7:
        ln["deal_balance"] = rng.choice([0, 1000.5, 99.99])
    if rng.random() < .3:
        ln["commission"] = rng.choice([0, 5, 1.25])
    if rng.random() < .7:
        ln["avg_cost"] = rng.choice([0, 10.2, 9.99])
    if rng.random() < .4:
        ln["err_msg"] = rng.choice(["", "no funds", "拒绝"])
    if rng.random() < .5:
        ln["entrust_time"] = {"$dt": [2026, 3, 2, 9, 32, rng.randrange(3)]}
    if rng.random() < .6:
        ln["confirm_id"] = str(rng.randrange(3))
    if rng.random() < .3:
        ln["side"] = rng.choice(["long", "short"])
    if rng.random() < .15:
        ln["idnum"] = True
    return ln


def r_orders(rng, good=None):
    if good is None:
        good = rng.random() < .75
    lines = [r_line(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    if rng.random() < .012:          # a long day
        lines += [dict(r_line(rng), order_id=f"many-{k}") for k in range(rng.choice([60, 130]))]
    if rng.random() < .3 and lines:
        again = dict(rng.choice(lines))              # only one attribute differs from the previous line or report
        k = rng.choice(["status", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "err_msg", "entrust_time", "price", "amount", "commission"])
        again[k] = r_line(rng).get(k, again.get(k, 0) if k != "entrust_time" else {"$dt": [2026, 3, 2, 9, 40, 0]})
        lines.append(again)
    if good:
        return ["ok", lines]
    k = rng.choice(["raise", "none", "noid", "status", "action", "noprice", "badlast"])
    if k == "raise":
        return ["raise", rng.choice(GATEFAIL)]
    if k == "none":
        return ["bad", None]
    bad = r_line(rng)
    if k == "noid":
        del bad["order_id"]
    elif k == "status":
        bad["status"] = "unknown"
    elif k == "action":
        bad["action"] = "buy"
        bad["order_id"] = "ext-9"
    else:
        del bad["price"]
    lines.insert(rng.randrange(len(lines) + 1) if k != "badlast" else len(lines), bad)
    return ["bad", lines]


def r_gate(rng, n=1):
    return [rng.choice(GATEFAIL) if rng.random() < .25 else "ok" for _ in range(n)]


def r_id(rng):
    r = rng.random()
    if r < .55:
        return ["nth", rng.randrange(8)]
    if r < .75:
        return ["num", "nth", rng.randrange(8)]
    return rng.choice(EXT + ["nope", "999999", "0", ""])


def r_query(rng):
    q = {}
    if rng.random() < .4:
        q["id"] = ["nth", rng.randrange(8)] if rng.random() < .8 else rng.choice(EXT + ["nope"])
    if rng.random() < .5:
        q["code"] = ["of", rng.randrange(8)] if rng.random() < .7 else rng.choice(CODES)
    if rng.random() < .5:
        q["status"] = [rng.choice(["text", "enum"]), rng.choice(ST)]
    return q


def scenario(rng, focus, n):
    w = {"order": 5, "batch": 2, "cancel": 2, "cancels": 1, "balance": 3, "orders": 3, "query": 2, "snap": 1}
    for k, v in focus.items():
        w[k] = v
    steps = []
    for _ in range(n):
        op = rng.choices(list(w), list(w.values()))[0]
        s = {"op": op, "ms": rng.choice([0, 0, 1, 1000])}
        if op == "order":
            s["req"] = r_req(rng)
            s["gate"] = r_gate(rng)
            s["positional"] = rng.random() < .5
        elif op == "batch":
            k = rng.choice([0, 1, 2, 3, 4, 5])
            s["reqs"] = [r_req(rng, batch=True) for _ in range(k)]
            s["gate"] = r_gate(rng, k)
        elif op == "cancel":
            s["id"] = r_id(rng)
            s["gate"] = r_gate(rng)
        elif op == "cancels":
            s["ids"] = [r_id(rng) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
            s["gate"] = r_gate(rng, len(s["ids"]))
        elif op == "balance":
            s["rep"] = r_balance(rng)
        elif op == "orders":
            s["rep"] = r_orders(rng)
        elif op == "query":
            s["q"] = r_query(rng)
        steps.append(s)
    job = {"steps": steps, "idseed": rng.choice([0, rng.randrange(1, 10**6), rng.randrange(1, 10**6)])}
    if rng.random() < .6:
        job["start_balance"] = r_balance(rng, rng.random() < .85)
    if rng.random() < .4:
        job["start_orders"] = r_orders(rng, rng.random() < .9)
        if job["start_orders"][0] != "raise":
            for ln in job["start_orders"][1] or []:
                if isinstance(ln.get("order_id"), list):
                    ln["order_id"] = rng.choice(EXT)
                ln.pop("idnum", None)
                for k, v in (("price", 8), ("amount", 100)):
                    if ln.get(k) == "same":
                        ln[k] = v
    return job


def validate(ctx, jobs, tag):
    res = ctx.jobs("c_acct", jobs, timeout=60)
    traces, by = [], {}
    for i, (j, r) in enumerate(zip(jobs, res)):
        ev = r["trace"]
        out = []
        done = False
        for e in ev:
            if e["e"] in ("gsetup",):
                continue
            if e["e"] in ("done", "died"):
                done = e["e"] == "done"
                if not done:
                    by.setdefault(("err", i), e)
                break
            out.append(e)
        if not done:
            out.append({"e": "end", "orders": [], "port": {}, "snaps": [], "calls": []})
        traces.append({"id": i, "ev": out})
        by[i] = (j, r, out)
    verdicts = {}
    B = 400
    for k in range(0, len(traces), B):
        plain, vals = ctx.tlc_ok("AccountTrace", CFG, data={"traces.json": traces[k:k + B]}, timeout=800)
        for v in vals:
            verdicts[v["id"]] = v
    if len(verdicts) != len(traces):
        raise MachineryError(f"AccountTrace judged {len(verdicts)} of {len(traces)} traces")
    bad = 0
    for i, v in sorted(verdicts.items()):
        j, r, out = by[i]
        for e in out:
            ctx.cov.setdefault("calls_by_kind", {})[e["e"]] = ctx.cov.setdefault("calls_by_kind", {}).get(e["e"], 0) + 1
        if not v["errs"]:
            continue
        bad += 1
        e = out[v["at"] - 1]
        for c in v["errs"]:
            p, clause = c.split(":")
            extra = "" if e["e"] != "end" else f" {by.get(('err', i))} code={r['code']} timeout={r['timeout']} {r['stderr'][-500:]}"
            ctx.violate(p, clause, f"[{tag}] step {v['at']}/{v['n']} " + json.dumps({k: e[k] for k in e if k not in ("orders", "port", "snaps")},
                                                                                   ensure_ascii=False)[:500] + extra,
                        {"job": j, "events": out[max(0, v["at"] - 3):v["at"]]})
    ctx.traces += len(traces)
    ctx.cov["events"] = ctx.cov.get("events", 0) + sum(len(t["ev"]) for t in traces)
    return bad


FOCUS = {
    "C07": {"balance": 10, "orders": 1, "cancel": 1},
    "C08": {"orders": 10, "query": 5, "balance": 1},
    "C09": {"orders": 8, "snap": 5, "query": 4, "order": 6, "balance": 1},
    "C10": {"order": 8, "batch": 6, "balance": 1},
    "C11": {"order": 9, "balance": 4, "batch": 3},
    "C12": {"cancel": 9, "cancels": 6, "order": 4, "orders": 4},
}


ALLOPS = ["order", "batch", "cancel", "balance", "orders", "snap"]
OPS = {"C07": ["order", "balance", "orders"], "C08": ["order", "cancel", "orders", "balance"], "C09": ["order", "cancel", "orders", "snap"],
       "C10": ["order", "batch", "orders"], "C11": ["order", "balance", "cancel", "orders", "batch"], "C12": ["order", "cancel", "orders"]}
DEFECTS = {"C07": ["partial_report", "zero_cash_kept", "left_out_zeroed", "positions_merged"], "C08": ["drop_unreported", "equal_ignores_filled", "mark_canceling"],
           "C09": ["mutate_in_place", "mark_canceling"], "C10": ["keep_alive", "id_clash", "batch_stops"],
           "C11": ["reserve_before_gate", "reserve_buys", "below_zero"], "C12": ["cancel_twice", "cancel_unknown", "mark_canceling"]}


def design_cfg(steps, ops, defect="none", orders=3, inv="NoClauseViolated", view=True, sim=False):
    return (f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT {inv}\n" + ("VIEW View\n" if view else "")
            + f"CONSTANTS MaxSteps = {steps} MaxOrders = {orders} Defect = \"{defect}\" Sim = {str(sim).upper()} Ops = {{" + ", ".join(f'"{o}"' for o in ops) + "}\n")


def design(ctx, prop):
    steps = ctx.pick(3, 5)
    ctx.tlc_ok("AccountDesign", design_cfg(steps, OPS[prop] if ctx.thorough and prop != "C11" else ALLOPS if not ctx.thorough else OPS[prop][:3]), timeout=840, heap="12g")
    ctx.cov["design_depth"] = steps
    if ctx.thorough:
        for d in DEFECTS[prop]:
            rc, plain, vals, err = ctx.tlc("AccountDesign", design_cfg(4, ALLOPS, d), timeout=300)
            if rc == 0 or "NoClauseViolated" not in "\n".join(plain):
                raise MachineryError(f"AccountDesign does not notice the defect {d}")
        ctx.cov["design_defects_noticed"] = DEFECTS[prop]


def replays(ctx, prop, num):
    """behaviours of the design chosen by TLC, as scripts for the real process"""
    steps = 10
    plain, vals = ctx.tlc_ok("AccountDesign", design_cfg(steps, OPS[prop] + ["snap"], orders=20, inv="Scenario", view=False, sim=True),
                             simulate=(num, steps + 1, ctx.rng.randrange(1, 2**30)), workers=1, timeout=300)
    rng = ctx.rng
    jobs, seen = [], set()

    def req(r):
        if r["code"] == "1":
            return r_req(rng, False)
        q = {"code": r["code"], "amount": r["amt"], "style": ["limit", 10], "side": ["none"] if r["side"] == "none" else [r["side"], r["side"]]}
        return q

    def gate(outs):
        return [o if o == "ok" else rng.choice(GATEFAIL) for o in outs]
    rng.shuffle(vals)              # the simulator prints every successor of the last but one state: keep one
    for hist in vals:
        k = json.dumps(hist[:-1], sort_keys=True)
        if k in seen:
            continue
        seen.add(k)
        out = []
        for h in hist:
            s = {"op": h["op"], "ms": rng.choice([0, 1000])}
            if h["op"] == "order":
                s["req"] = req(h["req"])
                s["gate"] = gate([h["out"]])
            elif h["op"] == "batch":
                s["reqs"] = [req(r) for r in h["reqs"]]
                s["gate"] = gate([o for r, o in zip(h["reqs"], h["outs"]) if r["code"] != "1"])
            elif h["op"] == "cancel":
                s["id"] = ["nth", h["nth"]] if h["known"] else "nope"
                s["gate"] = gate([h["out"]])
            elif h["op"] == "balance":
                r = h["rep"]
                pos = [{"code": p["code"], "amount": p["amt"], "available_amount": p["avail"], "avg_cost": 1, "position_value": 5, "side": p["side"]} for p in r["pos"]]
                rep = {"cash": {k: float(r[f]) for k, f in (("total_asset", "total"), ("available_cash", "cash"), ("locked_cash", "locked")) if r[f] != "?"}, "positions": pos}
                if not r["ok"]:
                    bad = dict(pos[0])
                    del bad[rng.choice(["amount", "code", "avg_cost", "available_amount"])]
                    pos.append(bad)
                s["rep"] = ["ok" if r["ok"] else "bad", rep]
            elif h["op"] == "orders":
                ln = h["line"]
                x = r_line(rng)
                x.update({"order_id": ["nth", h["nth"]] if h["known"] else "x", "status": ln["status"], "filled_amount": ln["filled"],
                          "canceled_amount": 0, "price": "same", "amount": "same"})
                for k in ("deal_balance", "avg_cost", "err_msg", "entrust_time", "confirm_id", "commission"):
                    if rng.random() < .6:
                        x.pop(k, None)
                lines = [x]
                if not h["ok"]:
                    b = r_line(rng)
                    del b["order_id"]
                    lines.append(b)
                s["rep"] = ["ok" if h["ok"] else "bad", lines]
            out.append(s)
        jobs.append({"steps": out, "idseed": rng.choice([0, rng.randrange(1, 10**6)])})
    return jobs


def fam(prop):
    def f(ctx):
        rng = ctx.rng
        design(ctx, prop)
        rep = replays(ctx, prop, ctx.pick(80, 1500))
        validate(ctx, rep, "model behaviour")
        ctx.cov["model_behaviours_replayed"] = len(rep)
        n = ctx.pick(200, 4000)
        jobs = [scenario(rng, FOCUS[prop], rng.choice([8, 12, 20])) for _ in range(n)]
        validate(ctx, jobs, "random")
        ctx.cov["distinct"] = {json.dumps(s, sort_keys=True) for j in jobs + rep for s in j["steps"]}
        ctx.samples += [jobs[0]["steps"][:2], rep[0]["steps"][:3]]
    return f


RULE = {p: "TLC explores the account mechanism exhaustively to design_depth calls; its simulated behaviours and random call histories run in the real "
           "process (start_task, scripted gate, virtual time) and every call's gate traffic, result and visible state is judged by Account!Step"
        for p in FOCUS}
FAMILIES = {p: fam(p) for p in FOCUS}
