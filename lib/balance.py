"""C17: cash and positions from the terminal's balance files."""
import json
from decimal import Decimal

from core import MachineryError
from events import notices, uniq

DEFECTS = ["no_check", "one_less", "one_more", "all_accounts", "carry", "clear", "early_cash", "old_cash"]
DAY = 86400


def dcfg(k, m, maxes="0, 1, 2", defect="none", sim=False):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoClauseViolated\n" + ("INVARIANT Scenario\n" if sim else "") +
            f'CONSTANTS K = {k} M = {m} Maxes = {{{maxes}}} Defect = "{defect}" Sim = {str(sim).upper()}\n')


# ------------------------------------------------------------------ files
def f4(x):
    return repr(round(float(x), 4))


def f3(x):
    return repr(round(float(x), 3))


def money(rng, hi=10**7):
    whole = rng.choice([0, rng.randrange(1000), rng.randrange(hi), rng.randrange(hi)])
    d = rng.choice([0, 1, 2, 3, 4])
    return f"{whole}.{rng.randrange(10**d):0{d}}" if d else str(whole)


def price(rng):
    """no halfway cases of rounding to three places"""
    d = rng.choice([0, 1, 2, 3, 4])
    s = f"{rng.randrange(300)}.{rng.randrange(10**d):0{d}}" if d else str(rng.randrange(300))
    return s[:-1] + "4" if d == 4 and s[-1] == "5" else s


NOTES = ["平安银行", "中国平安", "*ST某某", "x", "", "贵州茅台"]


def asset_rows(rng, acct, others, total=True):
    rows = []
    for a in rng.sample(others, rng.randrange(len(others) + 1)) + [acct]:
        mine = []
        if rng.random() < .5:
            for x in rng.sample(["SZ", "SH", "HK"], rng.randrange(1, 3)):
                mine.append((a, x, money(rng), money(rng), money(rng)))
        if a != acct or total:
            mine.append((a, "", money(rng), money(rng), money(rng)))
        rng.shuffle(mine)
        rows += [mine]
    rng.shuffle(rows)
    return [x for m in rows for x in m]


def pos_rows(rng, acct, others, many=False):
    rows = []
    codes = ["%06d.%s" % (c, x) for c, x in [(1, "SZ"), (600000, "SH"), (300750, "SZ"), (688981, "SH"), (2594, "SZ"), (510300, "SH"), (159915, "SZ")]]
    if many:
        codes += ["%06d.%s" % (c, rng.choice(["SZ", "SH"])) for c in rng.sample(range(100000, 599999), many)]
    if many and not others:
        others = ["99"]
    for a in others + [acct]:
        if a != acct and rng.random() < .4 and not many:
            continue
        own = rng.sample(codes, rng.randrange(6) if not many else rng.randrange(many // 2, many) if a != acct else rng.randrange(30))
        for c in own:
            if a != acct and rng.random() < .1:
                c = rng.choice(["00700.HK", "830799.BJ"])
            q = rng.choice([0, 0, 100, 200, 1300, rng.randrange(1, 10**6)])
            rows.append((a, c, q, rng.choice([0, q, q // 2, q + 100] if q else [0, 0, 100]), price(rng), price(rng), money(rng)))
        if a != acct and rng.random() < .15:      # a row of another account without a security
            rows.append((a, "", rng.choice([0, 100]), 0, price(rng), price(rng), money(rng)))
    if rng.random() < .5:
        rng.shuffle(rows)
    return rows


def columns(rng, names):
    """the columns in the terminal's order, with others between them"""
    cols = list(names)
    for n in rng.sample(["symbolName", "updTime", "currency", "profit", "备注"], rng.randrange(4)):
        cols.insert(rng.randrange(len(cols) + 1), n)
    return cols


def csv(rng, cols, rows, coding, nl, note=None):
    """text of a whole file; where the rows end; where the header ends"""
    def cell(c, r):
        if c in r:
            return r[c]
        if c == cols[0]:          # a row starts with something (a row cut after empty cells alone cannot be told from the closing mark)
            return "93000"
        return note if note and c == "symbolName" else rng.choice(NOTES) if c in ("symbolName", "备注") else rng.choice(["", "1", "0.5"])
    head = ",".join(cols) + nl
    out = head.encode(coding)
    for r in rows:
        out += (",".join(cell(c, r) for c in cols) + nl).encode(coding)
    body = len(out)
    out += ("," * (len(cols) - 1) + nl).encode(coding)
    return out, len(head.encode(coding)), body


def qty(rng, q):
    return rng.choice([str(q), str(q), f"{q}.0"]) if True else str(q)


class Files:
    """versions of both files"""
    def __init__(self, rng, job, acct, others):
        self.rng, self.job, self.acct, self.others = rng, job, acct, others
        self.cols = {"at": columns(rng, ["acct", "exchange", "totalAsset", "enabledBalance", "currentBalance"]),
                     "pt": columns(rng, ["acct", "symbol", "currentQty", "enabledQty", "costPrice", "lastPrice", "mktValue"])}
        self.abs = {"at": [], "pt": []}
        self.ends = {"at": [], "pt": []}
        job["data"] = {"at": [], "pt": []}
        self.coding = job["opts"].get("file_encoding", "utf-8")
        self.nl = rng.choice(["\n", "\r\n"])

    def new(self, f, total=True, many=0, note=None, accts=None):
        rng = self.rng
        if f == "at":
            rows = asset_rows(rng, self.acct, self.others, total)
            a = [{"acct": x[0], "exch": x[1], "tot": f4(x[2]), "free": f4(x[3]), "lock": repr(float(Decimal(x[4]) - Decimal(x[3])))} for x in rows]
            raw = [{"acct": x[0], "exchange": x[1], "totalAsset": x[2], "enabledBalance": x[3], "currentBalance": x[4]} for x in rows]
        else:
            rows = pos_rows(rng, self.acct, self.others, many)
            seen, keep = set(), []
            for x in rows:
                if (x[0], x[1]) not in seen:
                    seen.add((x[0], x[1]))
                    keep.append(x)
            rows = keep
            a = [{"acct": x[0], "code": x[1].replace(".SZ", ".XSHE").replace(".SH", ".XSHG"), "qty": str(x[2]), "avail": str(x[3]), "cost": f3(x[4]), "last": f3(x[5]),
                  "val": f4(x[6])} for x in rows]
            style = rng.random() < .3
            raw = [{"acct": x[0], "symbol": x[1], "currentQty": f"{x[2]}.0" if style else str(x[2]), "enabledQty": str(x[3]), "costPrice": x[4], "lastPrice": x[5],
                    "mktValue": x[6]} for x in rows]
        data, head, body = csv(rng, self.cols[f], raw, self.coding, self.nl, note)
        self.job["data"][f].append(data.decode("latin1"))
        self.abs[f].append(a)
        self.ends[f].append((head, body, len(data)))
        return len(self.abs[f]) - 1

    def mod(self, f, day, s, v=None):
        """a modification: state s with version v (0-based)"""
        rng = self.rng
        if s == "missing":
            return [f, day, s, 0, None]
        head, body, end = self.ends[f][v]
        if s == "cut":
            n = rng.choice([0, head, body, rng.randrange(body + 1), rng.randrange(body + 1), max(0, body - rng.randrange(1, 4)), rng.randrange(head + 1)])
            if rng.random() < .5 and body > head:     # between rows
                raw = self.job["data"][f][v][:body]
                n = rng.choice([i + 1 for i, c in enumerate(raw) if c == "\n"])
            return [f, day, s, v, n]
        if s == "tail":
            return [f, day, s, v, rng.randrange(body + 1, end)]
        return [f, day, s, v, None]


def base(rng, **k):
    acct = rng.choice(["66880", "1", "000123", "100200300400"])
    j = {"day0": rng.choice([[2026, 3, 2], [2028, 2, 28], [2025, 12, 31]]), "start": 9 * 3600, "end": 11 * 3600, "ticks": [36000], "calls": [], "first": [], "auto": False,
         "opts": {"account_no": acct if rng.random() < .8 or acct.startswith("0") else int(acct)}, "how": rng.choice(["rewrite", "rewrite", "replace"])}
    if rng.random() < .7:
        j["opts"]["file_encoding"] = rng.choice(["utf-8", "gbk"])
    r = rng.random()
    if r < .7:
        j["opts"]["sync_retry_kwargs"] = {"max_attempts": rng.choice([0, 1, 2, 3, 5]), "attempt_internal": rng.choice([0.05, 0.15, 1, 7.5])}
    elif r < .8:
        j["opts"]["sync_retry_kwargs"] = {"max_attempts": rng.choice([0, 1, 2])}
    j.update(k)
    if not j["auto"] and rng.random() < .2:
        j["earlier"] = [rng.choice([{}, {"sync_retry_kwargs": {"max_attempts": rng.choice([0, 1, 4]), "attempt_internal": 0.2}}]) for _ in range(rng.choice([1, 1, 2]))]
    others = rng.sample([a for a in ["66881", "6688", "668800", "2", "123", "00123", "1002003004001"] if a != acct], rng.randrange(4))
    return j, Files(rng, j, acct, others)


def limits(j):
    """configured attempts and pause (ms); the retry helper's own defaults where a value is not given"""
    k = j["opts"].get("sync_retry_kwargs")
    if k is None:
        return 3, 150
    return k.get("max_attempts", 3), int(k.get("attempt_internal", 0.1) * 1000)


def step(fs, rng, f, old, day=0):
    """what the terminal does next with a file in state old = (s, v); returns (modification, new state)"""
    s, v = old
    r = rng.random()
    if s == "cut" and r < .55:
        n = ("ok", v)
    elif s == "cut" and r < .8:
        n = ("cut", v)
    elif s == "cut" and r < .88:
        n = ("tail", v)
    elif s in ("ok", "tail", "missing") and r < .75:
        n = ("cut", fs.new(f, total=rng.random() > .1))
    elif s == "missing" or r < .9:
        n = ("ok", fs.new(f, total=rng.random() > .1))
    else:
        n = ("missing", 0)
    return fs.mod(f, day, *n), n


def random_job(rng, syncs, days=1):
    j, fs = base(rng)
    mx, pause = limits(j)
    if days > 1:
        j["ticks"] = [36000, 50000]
        j["end"] = (days - 1) * DAY + 51000
    per_tick = []
    st = {(f, d): ("missing", 0) for f in ("at", "pt") for d in range(days)}
    nticks = len(j["ticks"]) * days
    for t in range(nticks):
        day = t // len(j["ticks"])
        ops = []
        for _ in range(syncs):
            for f in ("at", "pt"):
                r = rng.random()
                if st[f, day][0] != "ok" and r < .7:
                    v = fs.new(f, total=rng.random() > .07)
                    ops.append(["put", fs.mod(f, day, "ok", v)])
                    st[f, day] = ("ok", v)
                elif r < .6:
                    m, st[f, day] = step(fs, rng, f, st[f, day], day)
                    ops.append(["put", m])
            # changes between the attempts
            span = 2 * mx + 1
            for w in sorted(rng.sample(range(1, 4 * span), min(rng.choice([0, 0, 1, 2, 3]), 4 * span - 1))):
                if w % 4 == 0 or not mx:
                    continue
                f = rng.choice(["at", "pt"])
                m, st[f, day] = step(fs, rng, f, st[f, day], day)
                ops.append(["later", w * pause // 4, m])
            ops.append(["sync"])
            ops.append(["ms", span * pause + 1000])
        if day + 1 < days and rng.random() < .4:
            v = fs.new("at")
            ops.append(["put", fs.mod("at", day + 1, "ok", v)])
            st["at", day + 1] = ("ok", v)
        per_tick.append(ops)
    j["calls"] = per_tick
    j["fs"] = fs.abs
    return j


def script_job(rng, sc):
    """a behaviour of BalanceDesign"""
    j, fs = base(rng)
    pause = rng.choice([80, 150, 1000])
    j["opts"]["sync_retry_kwargs"] = {"max_attempts": sc["max"], "attempt_internal": pause / 1000}
    ver = {}

    def of(f, v):
        if (f, v) not in ver:
            ver[f, v] = fs.new(f, total=not (f == "at" and v == 3))
        return ver[f, v]
    ops = []
    for f in ("at", "pt"):
        if sc["init"][f]["s"] == "ok":
            ops.append(["put", fs.mod(f, 0, "ok", of(f, 1))])
    mods = []
    for x in sc["script"] + [{"k": "sync"}]:
        if x["k"] == "mod":
            v = of(x["f"], x["v"]) if x["s"] != "missing" else 0
            mods.append((x["w"], fs.mod(x["f"], 0, x["s"], v)))
            continue
        # the modifications within a synchronisation come behind it in the script
        inner = [m for m in mods if m[0] >= 0]
        outer = [m for m in mods if m[0] < 0]
        if ops and any(o[0] == "sync" for o in ops) or inner:
            at = max((i for i, o in enumerate(ops) if o[0] == "sync"), default=None)
            n = {}
            for w, m in inner:
                n[w] = n.get(w, 0) + 1
                ops.insert(at, ["later", w * pause + min(pause - 10, 10 * n[w]), m])
                at += 1
        ops += [["ms", (2 * sc["max"] + 2) * pause]] + [["put", m] for _, m in outer]
        mods = []
        ops.append(["sync"])
    ops.pop()                          # the one added to close the last synchronisation
    j["calls"] = [ops]
    j["fs"] = fs.abs
    return j


def swap_job(rng, n, size=0):
    """files rewritten while they are being read (beyond the size of a reader's buffer)"""
    j, fs = base(rng, how="rewrite")
    if "symbolName" not in fs.cols["pt"]:
        fs.cols["pt"].append("symbolName")
    ops = []
    for _ in range(n):
        f = rng.choice(["at", "pt", "pt", "pt"])
        many = rng.choice([0, 250, 320, size]) if f == "pt" else 0
        other = "pt" if f == "at" else "at"
        ops.append(["put", fs.mod(other, 0, "ok", fs.new(other))])
        note = "n" * (rng.choice([1, 20, 60]) if many < 1000 else 200)
        ops.append(["put", fs.mod(f, 0, "ok", fs.new(f, many=many, note=note))])
        ops.append(["sync", [f, 0, rng.choice([0, 1, 1, 1, 2, 3]) if many else rng.choice([0, 1]), fs.new(f, many=rng.choice([0, many, many]), note=note)]])
        ops.append(["ms", 60000])
    j["calls"] = [ops]
    j["fs"] = fs.abs
    return j


def auto_job(rng):
    """the automatic synchronisation, half a minute before every tick"""
    j, fs = base(rng, auto=True)
    mx, pause = limits(j)
    j["ticks"] = [36000, 36600, 37200, 37800]
    j["syncs"] = [t - 90 for t in j["ticks"]]
    st = {}
    for f in ("at", "pt"):
        v = fs.new(f)
        st[f] = ("ok", v)
        j["first"].append(fs.mod(f, 0, "ok", v))
    j["plan"] = []
    span = 2 * mx + 1
    for t in j["syncs"]:
        for f in ("at", "pt"):
            for w in sorted(rng.sample([-60000, -30000] + [k * pause // 4 for k in range(1, 4 * span) if k % 4 and mx], rng.choice([1, 1, 2]))):
                m, st[f] = step(fs, rng, f, st[f])
                j["plan"].append([t * 1000 + w, m])
    j["calls"] = []
    j["fs"] = fs.abs
    return j


# ------------------------------------------------------------------ judging
def strip(v):
    return {"cash": v["cash"], "pos": [{k: x[k] for k in ("code", "qty", "avail", "cost", "last", "val")} for x in v["pos"]]}


def records(ctx, prop, j, r):
    """one record per synchronisation"""
    mx, pause = limits(j)
    tl = {}
    last = None
    auto = list(j.get("syncs", []))
    mods = []
    for e in r["trace"]:
        if e["e"] == "mod":
            mods.append(e)
    for e in r["trace"]:
        if e["e"] == "raised":
            ctx.violate(prop, "sync_raises", e["what"], j)
            continue
        if e["e"] == "start":
            v = e["view"]
            last = v
            if not j["auto"]:
                continue
            t0, before, after, took = j["start"] * 1000, v, v, 0
        elif e["e"] == "autoview":
            t0, before, after, took = auto.pop(0) * 1000, last, e["after"], -1
            last = after
        elif e["e"] == "sync":
            t0, before, after, took = e["t0"], e["before"], e["after"], e["t1"] - e["t0"]
        else:
            continue
        for x in after["pos"]:
            if x["side"] != "long":
                ctx.violate(prop, "position_not_long", json.dumps(x), j)
        if after["short"]:
            ctx.violate(prop, "short_positions", str(after["short"]), j)
        day = t0 // (DAY * 1000)
        rec = {"max": mx, "pause": pause, "acct": str(j["opts"]["account_no"]), "before": strip(before), "after": strip(after), "took": took}
        for f, av in (("at", "av"), ("pt", "pv")):
            x = [{"w": -1, "s": "missing", "v": 1}]
            for m in mods:
                if m["f"] != f or m["d"] != day:
                    continue
                w = m["w"] - t0
                # a file put at the moment of the beginning was there before it
                if w < 0 or (w == 0 and not m.get("mid")):
                    x = [{"w": -1, "s": m["s"], "v": m["v"] + 1}]
                elif w <= (2 * mx + 1) * pause:
                    x.append({"w": w, "s": m["s"], "v": m["v"] + 1})
            used = sorted({k["v"] for k in x})
            rec[f] = [dict(k, v=used.index(k["v"]) + 1) for k in x]
            rec[av] = [j["fs"][f][v - 1] if v <= len(j["fs"][f]) else [] for v in used]
        yield rec, e


def judge(ctx, prop, jobs, res):
    data, back = [], []
    for j, r in zip(jobs, res):
        if r["timeout"] or r["code"] not in (0, 98):
            ctx.violate(prop, "process_died", f"code {r['code']} timeout={r['timeout']} {r['stderr'][-600:]}", j)
            continue
        want = len(j["ticks"]) * (1 + j["end"] // DAY)
        if sum(e["e"] == "tick" for e in r["trace"]) != want:
            ctx.violate(prop, "process_stopped", f"{sum(e['e'] == 'tick' for e in r['trace'])} synchronisations instead of {want}: {r['stderr'][-800:]}", j)
            continue
        for rec, e in records(ctx, prop, j, r):
            data.append(dict(rec, id=len(data)))
            back.append((j, rec))
    plain, vals = ctx.tlc_ok("BalanceTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", data={"traces.json": data}, timeout=900, heap="8g")
    vals = list({v["id"]: v for v in vals}.values())
    if len(vals) != len(data):
        raise MachineryError(f"BalanceTrace judged {len(vals)} of {len(data)}")
    for v in vals:
        for c in v["errs"]:
            j, rec = back[v["id"]]
            x = {k: rec[k] for k in ("max", "pause", "acct", "at", "pt", "took", "before", "after")}
            ctx.violate(prop, c, json.dumps(x, ensure_ascii=False)[:1500], {"job": {k: w for k, w in j.items() if k != "data"}, "rec": rec})
    ctx.traces += len(data)
    ctx.cov.update(synchronisations=len(data), changed=sum(x["before"] != x["after"] for x in data), retried=sum(x["took"] > 0 for x in data),
                   ambiguous=sum(v["n"] > 1 for v in vals), during=sum(len(x["at"]) + len(x["pt"]) > 2 for x in data),
                   largest_file=max(len(d) for j in jobs for f in j["data"].values() for d in f))
    ctx.samples += [{k: d[k] for k in ("max", "pause", "at", "pt", "took", "after")} for d in ctx.rng.sample(data, min(2, len(data)))]


def fam_c17(ctx):
    rng = ctx.rng
    ctx.tlc_ok("BalanceDesign", dcfg(*ctx.pick((5, 2), (7, 3)), maxes=ctx.pick("0, 1, 2", "0, 1, 2, 3")), timeout=1500, heap="12g")
    for d in (DEFECTS if ctx.thorough else rng.sample(DEFECTS, 3)):
        notices(ctx, "BalanceDesign", dcfg(5, 2, defect=d), d)
    plain, vals = ctx.tlc_ok("BalanceDesign", dcfg(14, 4, sim=True), workers=1, timeout=300, simulate=(ctx.pick(120, 1500), 60, rng.randrange(1, 2**30)))
    scripts = uniq(vals)
    rng.shuffle(scripts)
    jobs = [script_job(rng, s) for s in scripts[:ctx.pick(60, 600)]]
    model = len(jobs)
    jobs += [random_job(rng, 5) for _ in range(ctx.pick(50, 500))]
    jobs += [random_job(rng, 2, days=rng.choice([2, 3])) for _ in range(ctx.pick(8, 60))]
    jobs += [swap_job(rng, 4) for _ in range(ctx.pick(6, 60))]
    jobs += [swap_job(rng, 4, 3000) for _ in range(ctx.pick(6, 40))]
    jobs += [auto_job(rng) for _ in range(ctx.pick(16, 120))]
    res = ctx.jobs("c_balance", [{k: v for k, v in j.items() if k != "fs"} for j in jobs], timeout=90)
    ctx.cov.update(model_behaviours=model)
    judge(ctx, "C17", jobs, res)


FAMILIES = {"C17": fam_c17}
RULE = {"C17": "the terminal's two files rewritten (emptied, cut at any byte, completed, removed, replaced while being read) before and between the read attempts of real "
               "synchronisations - behaviours of BalanceDesign.tla and random ones, several accounts, encodings, days, retry settings; every synchronisation judged by Balance.tla"}
