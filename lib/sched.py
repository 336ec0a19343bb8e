"""Scheduler family: C01, C02, C03, C04 (and the scheduling half of C05, C06)."""
import datetime
import json
import random

from core import MachineryError

DAY = 86400


# ------------------------------------------------------------------ expressions
def hms(s, style=0):
    h, m, sec = s // 3600, s // 60 % 60, s % 60
    if style == 1 and sec == 0:
        return f"{h:02d}:{m:02d}"
    return f"{h:02d}:{m:02d}:{sec:02d}"


def render(x):
    """abstract expression -> text given to run_daily"""
    k = x["k"]
    if k == "clock":
        return hms(x["h"] * 3600 + x["m"] * 60 + x["s"], x.get("style", 0))
    if k in ("open", "close"):
        parts = [f"{x[u]}{u}" for u in x.get("units", "hms") if x[u] or u in x.get("zero", "")]
        if not parts:
            return k
        return k + ("+" if x["sg"] > 0 else "-") + "".join(parts)
    return {"before_open": "before_open", "after_close": "after_close", "minute": "every_minute"}[k]


def clock(sec, style=0):
    return {"k": "clock", "h": sec // 3600, "m": sec // 60 % 60, "s": sec % 60, "style": style}


def shifted(base, secs, units="hms"):
    sg = 1 if secs >= 0 else -1
    a = abs(secs)
    h, m, s = a // 3600, a // 60 % 60, a % 60
    return {"k": base, "sg": sg, "h": h, "m": m, "s": s, "units": units}


def offsets(x, per):
    """parent-side copy of the spec's Offsets, only used to aim durations and stops at interesting instants"""
    k = x["k"]
    if k == "clock":
        return [x["h"] * 3600 + x["m"] * 60 + x["s"]]
    if k in ("open", "close"):
        b = per[0][0] if k == "open" else per[-1][1]
        return [b + x["sg"] * (x["h"] * 3600 + x["m"] * 60 + x["s"])]
    if k == "before_open":
        return [per[0][0] - 1800]
    if k == "after_close":
        return [per[-1][1] + 1800]
    out = []
    for a, b in per:
        out += list(range(a, b + 1, 60))
    return sorted(set(out))


DEFPER = [[9 * 3600 + 1800, 11 * 3600 + 1800], [13 * 3600, 15 * 3600]]


class Scn:
    """one scenario: what the strategy registers, when it starts, how long tasks take, stops and failures"""

    def __init__(self, date, start, startms=0):
        self.date, self.start, self.startms = date, start, startms
        self.regs = []          # dict: f, x (expression), how
        self.per = None         # None: default periods
        self.peropt = None      # how given: list of [text|time, ...]
        self.durs, self.raises, self.sigs = {}, {}, []
        self.end = None
        self.initdur = 0
        self.opts = {}
        self.opts_pos = "before"
        self.gate = None
        self.config = None
        self.extra_init = []
        self.acts = {}
        self.tag = ""

    def add(self, x, f=None, how="plain"):
        self.regs.append({"f": f or f"f{len(self.regs)}", "x": x, "how": how})
        return self

    def job(self):
        d = self.date
        st = self.start
        opts = dict(self.opts)
        if self.per is not None:
            opts["market_period"] = self.peropt or [[hms(a), hms(b)] for a, b in self.per]
        use = self.gate is not None
        opts["use_account"] = use
        if use:
            opts["account_no"] = "1"
        opts["runtime_dir"] = "rt"
        o = [["options", opts]]
        regs = [["daily", r["f"], render(r["x"]), r["how"]] for r in self.regs]
        k = {"before": 0, "after": len(regs), "middle": len(regs) // 2}[self.opts_pos]
        init = regs[:k] + o + regs[k:]
        if self.initdur:
            init.insert(0 if self.start % 2 else len(init), ["sleep", self.initdur])
        init += self.extra_init
        plan = {"start": [d.year, d.month, d.day, st // 3600, st // 60 % 60, st % 60, self.startms],
                "end": self.end, "signals": self.sigs, "init": init, "fids": sorted({r["f"] for r in self.regs}) or ["f0"],
                "durs": self.durs, "raises": self.raises, "acts": self.acts}
        if self.gate is not None:
            plan["gate"] = self.gate
        if self.config is not None:
            plan["config"] = self.config
        return {"plan": plan}

    def trace(self, tid, res):
        """recorded execution -> trace for SchedTrace (None when the strategy did not come up)"""
        ev, cur, ini = [], None, None
        calls = []
        for r in res["trace"]:
            e = r["e"]
            if e == "ini":
                ini = (r["w"], r["wm"])
            elif e == "b":
                cur = {"e": "call", "f": r["f"], "s": r["s"], "sm": r["sm"], "w": r["w"], "wm": r["wm"], "c": r["c"], "cm": r["cm"],
                       "x": r["w"], "xm": r["wm"], "out": "cut"}
                ev.append(cur)
            elif e == "x" and cur is not None:
                cur["x"], cur["xm"], cur["out"] = r["x"], r["xm"], r["out"]
                cur = None
            elif e in ("sb", "so") and ini is not None:
                prev = ev[-1] if ev else None
                new = not (prev and prev["e"] == "sync" and prev["s"] == r["s"])
                ev.append({"e": "sync", "s": r["s"], "w": r["w"], "wm": r["wm"], "x": r["x"], "xm": r["xm"], "new": new})
            elif e == "exit":
                ev.append({"e": "exit", "how": r["how"], "w": r["w"], "wm": r["wm"], "same": r["same"]})
        if ini is None:
            return None
        if not ev or ev[-1]["e"] != "exit":
            code = res["code"]
            how = "horizon" if code == 98 else "signal" if code < 0 else f"code{code}"
            if res["timeout"]:
                how = "hang"
            w, wm = self.end if self.end else (ini[0], ini[1])
            if how != "horizon":
                if ev:
                    w, wm = ev[-1].get("x", w), ev[-1].get("xm", wm)
            ev.append({"e": "exit", "how": how, "w": w, "wm": wm, "same": False})
        regs = []
        for r in self.regs:
            x = r["x"]
            regs.append({"f": r["f"], "k": x["k"], "h": x.get("h", 0), "m": x.get("m", 0), "s": x.get("s", 0), "sg": x.get("sg", 1)})
        cfg = {"regs": regs, "per": self.per or DEFPER, "st": self.start, "stm": self.startms, "ini": ini[0], "inim": ini[1],
               "sigs": [{"w": a, "wm": b} for a, b, _ in self.sigs]}
        return {"id": tid, "cfg": cfg, "ev": ev}


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Verdict\n"


def validate(ctx, scns, results, startup_prop="C01"):
    """run TLC over all recorded traces; record violations"""
    traces, by = [], {}
    for i, (s, r) in enumerate(zip(scns, results)):
        t = s.trace(i, r)
        if t is None:
            what = f"strategy did not come up: code={r['code']} timeout={r['timeout']} {r['trace'][-2:]} {r['stderr'][-400:]}"
            ctx.violate(["C01", "C02", "C03", "C04"], f"start_refused", what, {"job": s.job(), "tag": s.tag})
            continue
        traces.append(t)
        by[i] = (s, t)
    bad = 0
    # spread over TLC runs so that one long trace does not serialise the rest
    verdicts = {}
    if traces:
        plain, vals = ctx.tlc_ok("SchedTrace", CFG, data={"traces.json": traces}, timeout=800, workers=8)
        for v in vals:
            verdicts[v["id"]] = v
        if len(verdicts) != len(traces):
            raise MachineryError(f"SchedTrace judged {len(verdicts)} of {len(traces)} traces")
    for i, v in verdicts.items():
        if v["errs"]:
            s, t = by[i]
            bad += 1
            e = t["ev"][v["at"] - 1]
            for c in v["errs"]:
                prop, clause = c.split(":")
                ctx.violate(prop, clause, f"[{s.tag}] event {v['at']}/{v['n']} {json.dumps(e)}; cfg={json.dumps(t['cfg'])[:400]}",
                            {"job": s.job(), "cfg": t["cfg"], "around": t["ev"][max(0, v["at"] - 6):v["at"] + 1]})
    ctx.traces += len(traces)
    ctx.cov["events"] = ctx.cov.get("events", 0) + sum(len(t["ev"]) for t in traces)
    ctx.cov["calls"] = ctx.cov.get("calls", 0) + sum(1 for t in traces for e in t["ev"] if e["e"] == "call")
    return bad


# ------------------------------------------------------------------ scenario generation
DATES = [(2026, 3, 2), (2026, 2, 28), (2028, 2, 28), (2026, 12, 31), (2026, 4, 30), (2027, 1, 1), (2026, 11, 19), (2025, 6, 29)]


def rdate(rng):
    if rng.random() < 0.6:
        return datetime.date(*rng.choice(DATES))
    return datetime.date(2024, 1, 1) + datetime.timedelta(days=rng.randrange(1500))


def rperiods(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    cuts = sorted(rng.sample(range(1, 23 * 60), 2 * n))
    per = []
    for i in range(n):
        a, b = cuts[2 * i] * 60, cuts[2 * i + 1] * 60
        if rng.random() < 0.3:
            a += rng.randrange(60)
        if rng.random() < 0.3:
            b += rng.randrange(60)
        per.append([a, b])
    if n > 1 and rng.random() < .3:      # periods that touch or overlap: the minutes they share are one occurrence each
        i = rng.randrange(1, n)
        per[i][0] = max(per[i - 1][0], per[i - 1][1] - rng.choice([0, 0, 60, 600, rng.randrange(3600)]))
    return per


def give_periods(rng, per):
    out = []
    for p in per:
        out.append([[t // 3600, t // 60 % 60, t % 60] if rng.random() < .5 else hms(t) for t in p])
    return out


def rexpr(rng, per, start, near=None):
    r = rng.random()
    if near is not None and r < .35:
        t = (near + rng.choice([0, 0, 0, 1, -1, 60, -60, 5, 30])) % DAY
        return clock(t)
    if r < .5:
        t = rng.choice([rng.randrange(DAY), rng.randrange(1440) * 60, 0, DAY - 1, 9 * 3600 + 1800, 12 * 3600])
        return clock(t, rng.choice([0, 1]))
    if r < .6:
        return {"k": rng.choice(["before_open", "after_close"])}
    if r < .9:
        base = rng.choice(["open", "close"])
        mag = rng.choice([0, 1, 30, 59, 60, 61, 90, 1800, 3599, 3600, 3661, 5400, 7265, rng.randrange(0, 4 * 3600)])
        sg = rng.choice([1, -1])
        x = shifted(base, mag * sg)
        if rng.random() < .25 and mag < 100 * 60 and mag % 60 == 0 and mag >= 60:
            x["h"], x["m"] = 0, mag // 60          # e.g. open+90m
        return x
    return {"k": "minute"}


def fill_ok(s):
    """shifted occurrences of the day before the start are not defined by the property: keep them out"""
    per = s.per or DEFPER
    return all(o < DAY or o - DAY < s.start for r in s.regs for o in offsets(r["x"], per))


def dues(s, days):
    """all (sec, f) of the scenario, to aim at"""
    per = s.per or DEFPER
    out = []
    for r in s.regs:
        for d in range(days + 1):
            for o in offsets(r["x"], per):
                t = d * DAY + o
                if t >= s.start:
                    out.append((t, r["f"]))
    return sorted(out)


def random_scn(rng, minute=False, stop=False, fail=False, sync=False, days=None):
    while True:
        date = rdate(rng)
        s = Scn(date, 0)
        if rng.random() < .5:
            s.per = rperiods(rng)
            s.peropt = give_periods(rng, s.per)
        per = s.per or DEFPER
        if minute and s.per is None and rng.random() < .6:
            a = rng.randrange(1, 22 * 60) * 60
            s.per = [[a, a + 60 * rng.randrange(0, 12)]]
            if rng.random() < .5:
                a2 = max(a, s.per[0][1] + 60 * (rng.randrange(2, 60) if rng.random() < .6 else rng.choice([0, 0, -1, -3, 1])))
                if a2 < DAY - 900:
                    s.per.append([a2, a2 + 60 * rng.randrange(0, 8)])
            s.peropt = give_periods(rng, s.per)
            per = s.per
        anchors = [per[0][0], per[-1][1], per[0][0] - 1800, per[-1][1] + 1800, 0, DAY - 1]
        r = rng.random()
        s.start = rng.choice(anchors) + rng.choice([0, 0, 1, -1, 30, -30, 61]) if r < .6 else rng.randrange(DAY)
        s.start = min(max(s.start, 0), DAY - 1)
        s.startms = rng.choice([0, 0, 1, 500, 999, rng.randrange(1000)])
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        tod = rng.choice(anchors) % DAY
        for i in range(n):
            x = rexpr(rng, per, s.start, near=tod if rng.random() < .6 else None)
            if x["k"] == "minute" and not minute:
                x = clock(tod)
            f = None
            if i and rng.random() < .12:
                f = s.regs[0]["f"]
            how = rng.choice(["plain"] * 6 + ["lambda", "closure", "method", "imported", "kw"])
            if f is not None:
                how = "plain"
            s.add(x, f=f, how=how)
        if minute:
            s.regs.insert(rng.randrange(len(s.regs) + 1), {"f": f"m{n}", "x": {"k": "minute"}, "how": "plain"})
            if rng.random() < .3:
                s.regs.append({"f": f"n{n}", "x": {"k": "minute"}, "how": "plain"})
        if fill_ok(s):
            break
    nd = days or rng.choice([1, 1, 2, 3])
    s.end = [s.start // DAY * DAY + nd * DAY + rng.randrange(DAY), 777]
    s.opts_pos = rng.choice(["before", "after", "middle"])
    due = dues(s, nd + 1)
    # durations: instant, short, up to or past the following occurrences, past midnight
    if rng.random() < .75:
        for r in s.regs:
            if rng.random() < .6:
                ds = []
                for _ in range(rng.choice([1, 2, 3])):
                    ds.append(rng.choice([0, 0, 1, 500, 1000, 59999, 60000, 60001, 150000, 1800000, 3 * 3600000,
                                          rng.randrange(1, 100000)] + ([26 * 3600000] if rng.random() < .15 else [])))
                s.durs[r["f"]] = ds
    if rng.random() < .2:
        s.initdur = rng.choice([1, 500, 1000, 30000, 90000])
    if sync:
        s.gate = {}
        s.opts.update({"sync_internal": rng.choice([60, 300, 1800, 3600])})
        if rng.random() < .5:
            a = (tod - tod % 60) if rng.random() < .7 else rng.randrange(20) * 3600
            s.opts["sync_period"] = [[hms(a), hms(min(a + rng.choice([0, 60, 600, 3600]), DAY - 1))]]
        if rng.random() < .5:
            s.gate["sb_durs"] = [rng.choice([0, 10, 1500])]
        if rng.random() < .3:
            s.opts[rng.choice(["sync_balance", "sync_order"])] = False
    if stop and due:
        lim = s.end[0]
        cand = [t for t, _ in due if t < lim] or [s.start + 10]
        t = rng.choice(cand[:40])
        k = rng.random()
        if k < .3:
            dt, ms = rng.choice([(-1, 999), (0, 1), (-1, 1), (1, 0), (-7, 0)])
        elif k < .8:
            f = rng.choice([f for tt, f in due if tt == t] or ["f0"])
            d = rng.choice([2000, 60000, 120000, 300000, 7200000])
            s.durs[f] = [d]
            into = rng.choice([1, d // 2, d - 1, d // 3])
            dt, ms = into // 1000, into % 1000
        else:
            dt, ms = rng.randrange(0, 4000), rng.randrange(1, 1000)
        sec = t + dt
        if (sec, ms) > (s.start + s.initdur // 1000 + 1, 0):
            s.sigs = [[sec, ms, rng.choice([15, 15, 2])]]
            if rng.random() < .15:
                s.sigs.append([sec, min(ms + 1, 999), 15])
    if fail and due:
        f = rng.choice([f for _, f in due[:12]])
        s.raises[f] = [rng.choice([1, 1, 2, 3]), rng.choice(["plain", "odd", "key", "user", "falsy", "mute", "frozen", "cancelled"])]
        # a repeated function raises on its n-th call
    return s


# ------------------------------------------------------------------ C03: texts
def text_cases(rng, n):
    """(expression text or non-text, periods as texts or None)"""
    out = []

    def two(v):
        return f"{v:02d}"

    def clock_text():
        h, m, s = rng.choice([0, 9, 10, 23, rng.randrange(24)]), rng.choice([0, 59, 30, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
        return rng.choice([f"{two(h)}:{two(m)}:{two(s)}", f"{two(h)}:{two(m)}"])

    def off_text():
        us = rng.choice(["h", "m", "s", "hm", "ms", "hs", "hms", "mh", "smh", "sm"])
        return "".join(f"{rng.choice([0, 1, 5, 9, 10, 30, 59, 60, 90, 99, rng.randrange(100)]) if u != 'h' else rng.choice([0, 1, 2, 5, 11, 25])}{u}" for u in us)

    def expr():
        r = rng.random()
        if r < .3:
            return clock_text()
        if r < .8:
            return rng.choice(["open", "close"]) + rng.choice(["+", "-"]) + off_text()
        return rng.choice(["open", "close", "before_open", "after_close", "every_minute"])

    def mutate(t):
        alpha = "0123456789:+-hmsopenclx._"
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(4)
            i = rng.randrange(len(t) + 1)
            if k == 0:
                t = t[:i] + rng.choice(alpha) + t[i:]
            elif k == 1 and t:
                t = t[:i] + t[i + 1:]
            elif k == 2 and t:
                t = t[:i] + rng.choice(alpha) + t[i + 1:]
            else:
                j = rng.randrange(len(t) + 1)
                t = t[:min(i, j)] + t[max(i, j):]
        return t

    def pers(good=True):
        k = rng.choice([1, 2, 2, 3])
        cuts = sorted(rng.sample(range(0, 1440), 2 * k))
        p = []
        for i in range(k):
            a, b = cuts[2 * i] * 60 + rng.choice([0, 0, 1, 59]), cuts[2 * i + 1] * 60 + rng.choice([0, 0, 30])
            if b - a > 40 * 60 and rng.random() < .7:
                b = a + rng.randrange(0, 12) * 60
            p.append([hms(a), hms(b)])
        if not good:
            r = rng.random()
            i = rng.randrange(k)
            if r < .35:
                p[i][rng.randrange(2)] = rng.choice(["09:30", "24:00:00", "9h30m", "", "09:60:00", "09:30:61", "0930", "09-30-00", "09:30:00:00", "open"])
            elif r < .6:
                p[i] = p[i][:1] if rng.random() < .5 else p[i] + ["23:59:59"]
            elif r < .8:
                p[i] = [hms(3600 * 12), hms(3600 * 12 - rng.choice([1, 60, 3600]))]
            else:
                p[i][rng.randrange(2)] = mutate(p[i][0])
        return p
    fixed = ["24:00", "23:60", "12:30:60", "", ":", "12", "12:", ":30", "12:30:", "noon", "open+", "open-", "open+5", "open+5x", "open5m", "+5m",
             "open+-5m", "open+5m+5m", "close+1h1h", "open+100m", "open+1h30", "opening", "OPEN", "Close", "open.5m", "09:30:00:15", "12:30pm", "mid+5m",
             "every_hour", "every_minute+1m", "before_open+5m", "after_close-30m", "open+1.5h", "12.30", "930", "09;30", "none", "open +5m", "openopen",
             "close-0m", "close+59s", "open-99m", "open+24h", "close-15h", "23:59:59", "00:00", "00:00:00", "open+1h1m1s", "close-1s", "23:59", "closed",
             "1:2:3:4", "12:3a", "aa:bb", "open+h", "open+1d", "open*5m", "open+5m ", "before_close", "after_open", "every_second", "every_day",
             "12:30-5m", "12:30+5m", "09:30:5x", "h+5m", "12h30m", "25:00", "99:99"]
    for t in fixed:
        out.append((t, None))
    for v in [None, 930, 9.5, ["09:30"], {"t": "09:30"}, True]:
        out.append((v, None))
    while len(out) < n:
        r = rng.random()
        if r < .3:
            out.append((expr(), None))
        elif r < .55:
            out.append((mutate(expr()), None))
        elif r < .8:
            out.append((rng.choice([expr(), "every_minute", "every_minute", "open", "close", "before_open", "after_close", "open+" + off_text(), "close-" + off_text()]), pers()))
        else:
            out.append((rng.choice([expr(), "every_minute", "open"]), pers(False)))
    for _ in range(n // 10):       # the account's periods
        out.append((rng.choice([clock_text(), "every_minute", "open"]), None, pers(rng.random() < .3)))
    return out


def chars(t):
    return [c if ord(c) < 128 else "?" for c in t]


def run_texts(ctx, n):
    cases = text_cases(ctx.rng, n)
    jobs = []
    cases = [c if len(c) == 3 else c + (None,) for c in cases]
    for t, per, sper in cases:
        opts = {"use_account": False, "runtime_dir": "rt"}
        regs = [["daily", "f0", t, ctx.rng.choice(["plain", "kw"])]]
        if per is not None:
            opts["market_period"] = per
        o = [["options", opts]]
        init = o + regs if ctx.rng.random() < .5 else regs + o
        d = rdate(ctx.rng)
        plan = {"start": [d.year, d.month, d.day, 0, 0, 0, 0], "end": [2 * DAY - 1, 990], "init": init, "fids": ["f0"]}
        if sper is not None:
            opts.update(use_account=True, account_no="1", sync_period=sper, sync_internal=3600)
            plan["gate"] = {}
        jobs.append({"plan": plan})
    res = ctx.jobs("c_sched", jobs, timeout=30)
    data = []
    for (t, per, sper), r in zip(cases, res):
        calls = [e["w"] for e in r["trace"] if e["e"] == "b"]
        up = r["code"] == 98 and not r["timeout"] and not any(e["e"] == "exit" for e in r["trace"])
        # refused: the process ended with an error before any task ran
        refused = any(e["e"] == "exit" and e["how"] == "error" for e in r["trace"]) and not calls
        if not up and not refused:
            ctx.violate(["C03"], "hang_or_crash_at_start", f"{t!r} periods={per}: code={r['code']} timeout={r['timeout']} {r['trace'][-2:]}",
                        {"x": t, "per": per, "sper": sper})
        x = chars(t) if isinstance(t, str) else ["#"]
        data.append({"x": x, "per": [[chars(z) for z in p] for p in per or []], "sper": [[chars(z) for z in p] for p in sper or []], "started": up, "calls": calls, "days": 1})
    plain, vals = ctx.tlc_ok("TimeExpr", CFG, data={"cases.json": data})
    if len(vals) != len(data):
        raise MachineryError(f"TimeExpr judged {len(vals)} of {len(data)}")
    cl = {}
    for v in vals:
        cl[v["c"]] = cl.get(v["c"], 0) + 1
        for c in v["errs"]:
            t, per, sper = cases[v["id"] - 1]
            r = res[v["id"] - 1]
            ctx.violate("C03", c, f"run_daily time {t!r}, market_period {per}{f', sync_period {sper}' if sper else ''}: code={r['code']} calls={data[v['id'] - 1]['calls'][:6]} "
                        f"{[e for e in r['trace'] if e['e'] in ('exit', 'opt', 'reg')][-2:]}", {"x": t, "per": per, "job": jobs[v["id"] - 1]})
    ctx.cov["text_cases"] = {"total": len(data), "by_class": cl}
    ctx.traces += len(data)


# ------------------------------------------------------------------ C06
def run_acctsync(ctx, n):
    rng = ctx.rng
    jobs, cfgs, ends = [], [], []
    for k in range(n):
        d = rdate(rng)
        start = rng.choice([0, 1, 9 * 3600, 12 * 3600, 86390, 86399, 86395, rng.randrange(DAY), rng.randrange(DAY), 15 * 3600 + 1, 34200, 34199])
        ms = rng.choice([0, 0, 1, 500, 999])
        iv = rng.choice([5, 5, 7, 60, 61, 300, 1000, 1800, 3600, 7000, 20000, 86399, 2.5, 0.5, 1, 90000])
        per = None
        if rng.random() < .55:
            m = rng.choice([1, 2, 2, 3])
            cuts = sorted(rng.sample(range(0, 1440), 2 * m))
            per = []
            for i in range(m):
                a, b = cuts[2 * i] * 60 + rng.choice([0, 0, 7]), cuts[2 * i + 1] * 60 + rng.choice([0, 0, 11])
                if rng.random() < .3:
                    b = min(a + int(iv) * rng.randrange(0, 5), DAY - 1) if iv >= 1 else a + 3
                if i and a <= per[-1][1]:
                    continue
                per.append([a, b])
            if rng.random() < .15:
                per = [[0, DAY - 1]]
            if rng.random() < .3:
                start = max(0, min(DAY - 1, rng.choice(per)[rng.randrange(2)] + rng.choice([-1, 0, 1, 3])))
        days = rng.choice([1, 2, 3]) if iv >= 60 else rng.choice([1, 1, 2])
        secs = DAY if per is None else sum(b - a for a, b in per) + 1
        while days > 0 and days * secs // max(iv, 1) > ctx.pick(3000, 9000):
            days -= 1
        if days < 1 or (iv < 5 and per is None):
            # cover midnight only
            start = max(start, DAY - 3000) if per is None else start
            end = [DAY + 2000, 500]
        else:
            end = [days * DAY + rng.randrange(DAY // 2), 500]
        if iv < 5 and per is not None:
            per = [[a, min(b, a + 600)] for a, b in per]
        if days < 1 and per is not None:
            per = [[a, min(b, a + int(max(iv, 1) * 900))] for a, b in per]
        opts = {"use_account": True, "account_no": "1", "runtime_dir": "rt"}
        if iv != 5 or rng.random() < .7:
            opts["sync_internal"] = rng.choice([iv, str(iv)])
        if per is not None:
            opts["sync_period"] = give_periods(rng, per)
            if rng.random() < .3:        # in any order
                rng.shuffle(opts["sync_period"])
        bal, od = True, True
        r = rng.random()
        if r < .12:
            opts["sync_balance"], bal = rng.choice([False, 0]), False
        elif r < .24:
            opts["sync_order"], od = rng.choice([False, 0]), False
        elif r < .28:
            opts["sync_balance"] = opts["sync_order"] = bal = od = False
        elif r < .4:
            opts["sync_balance"] = True
        gate = {}
        if rng.random() < .4:
            gate["sb_fails"] = rng.choice(["all", [1], [2, 3], [1, 2, 5]])
        if rng.random() < .4:
            gate["so_fails"] = rng.choice(["all", [1], [2, 4], [3]])
        if rng.random() < .3:
            gate["sb_durs"] = rng.choice([[10], [0, 700], [1500], [0, 0, 20000]])
        if rng.random() < .3:
            gate["so_durs"] = rng.choice([[10], [0, 900], [2500]])
        init = [["options", opts]]
        r = rng.random()
        if r < .2:                       # options given before are replaced
            o1 = {"use_account": rng.random() < .85, "account_no": rng.choice(["1", "2"]), "runtime_dir": "rt", "sync_internal": rng.choice([5, 7, 60, 1800, iv])}
            if rng.random() < .5:
                o1["sync_period"] = give_periods(rng, [[36000, 50000]])
            if rng.random() < .3:
                o1[rng.choice(["sync_balance", "sync_order"])] = False
            init.insert(0, ["options", o1])
        if r < .05:                      # account support is turned off again
            opts["use_account"] = bal = od = False
        plan = {"start": [d.year, d.month, d.day, start // 3600, start // 60 % 60, start % 60, ms], "end": end, "init": init, "fids": ["f0"], "gate": gate}
        if rng.random() < .4 or not (bal or od):     # a process with nothing left to do may end
            t = rng.choice([start + 3, rng.randrange(DAY), (per or [[36000]])[0][0]]) % DAY
            init.insert(rng.randrange(2), ["daily", "f0", hms(t), "plain"])
            plan["durs"] = {"f0": [rng.choice([0, 1500, 100000, 3 * 3600000])]}
        if rng.random() < .15:
            init.append(["sleep", rng.choice([500, 90000])])
        jobs.append({"plan": plan})
        ends.append(end)
        cfgs.append({"i": int(iv), "im": int(iv * 1000) % 1000, "win": per or [], "bal": bal, "ord": od, "st": start})
    res = ctx.jobs("c_sched", jobs)
    traces = []
    for k, (r, c) in enumerate(zip(res, cfgs)):
        ev, cut = [], False
        given, w = sum(x[0] == "options" for x in jobs[k]["plan"]["init"]), {"x": c["st"], "xm": 0}
        for e in r["trace"]:
            if e["e"] in ("sb", "so"):
                cut = False
                ev.append({"e": e["e"], "s": e["s"], "w": e["w"], "wm": e["wm"], "x": e["x"], "xm": e["xm"]})
            elif e["e"] == "opt":
                given -= 1
                w = ev[-1] if ev else w
                if given:              # what was done for options that are replaced afterwards does not count
                    ev = []
                    continue
                ev.append({"e": "opt", "w": w["x"], "wm": w["xm"]})
            elif e["e"] in ("b", "g0"):
                cut = True
            elif e["e"] == "x":
                ev.append({"e": "task", "x": e["x"], "xm": e["xm"]})
                cut = False
            elif e["e"] == "ini":
                ev.append({"e": "task", "x": e["w"], "xm": e["wm"]})
        how = "horizon" if r["code"] == 98 and not r["timeout"] else "ended"
        if cut:
            # the run was cut inside a task: nothing is owed
            ev.append({"e": "task", "x": ends[k][0] + 10, "xm": 0})
        ev.append({"e": "exit", "how": how, "w": ends[k][0], "wm": ends[k][1], "cut": True})
        traces.append({"id": k, "cfg": c, "ev": ev})
    plain, vals = ctx.tlc_ok("AcctSync", CFG, data={"traces.json": traces})
    if len(vals) != len(traces):
        raise MachineryError(f"AcctSync judged {len(vals)} of {len(traces)}")
    for v in vals:
        for c in v["errs"]:
            k = v["id"]
            ctx.violate("C06", c, f"event {v['at']}/{v['n']} {traces[k]['ev'][max(0, v['at'] - 3):v['at']]} cfg={cfgs[k]} opts={jobs[k]['plan']['init']} "
                        f"code={res[k]['code']} {res[k]['trace'][-1:]}",
                        {"job": jobs[k], "cfg": cfgs[k], "around": traces[k]["ev"][max(0, v["at"] - 6):v["at"] + 1]})
    ctx.traces += len(traces)
    ctx.cov["sync_calls"] = sum(len(t["ev"]) for t in traces)


# ------------------------------------------------------------------ families of the checks
def run_scns(ctx, scns, timeout=60):
    """run scenarios against the real process, validate in portions so that one run stays small"""
    bad = 0
    for i in range(0, len(scns), 150):
        part = scns[i:i + 150]
        res = ctx.jobs("c_sched", [s.job() for s in part], timeout=timeout)
        bad += validate(ctx, part, res)
    tags = ctx.cov.setdefault("scenarios", {})
    for s in scns:
        tags[s.tag] = tags.get(s.tag, 0) + 1
    ctx.cov.setdefault("distinct", set()).update(json.dumps(s.job(), sort_keys=True) for s in scns)
    if len(ctx.samples) < 3 and scns:
        ctx.samples.append(scns[0].job())
    return bad


def tagged(tag, scns):
    for s in scns:
        s.tag = tag
    return scns


def design_cfg(defect="none", nreg=2, ticks=4, batch=2, horizon=10, durs=(0, 1, 3), kinds=("clock", "minute"), stop=False, fail=False, inv=None, view=True):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            + "".join(f"INVARIANT {i}\n" for i in (inv or ["NoClauseViolated", "OneMessageEach"]))
            + ("VIEW View\n" if view else "")
            + f"CONSTANTS NReg = {nreg} Ticks = {ticks} Batch = {batch} Horizon = {horizon} Durs = {{{', '.join(map(str, durs))}}} "
            + "Kinds = {" + ", ".join(f'"{k}"' for k in kinds) + "} "
            + f"WithStop = {'TRUE' if stop else 'FALSE'} WithFail = {'TRUE' if fail else 'FALSE'} Defect = \"{defect}\"\n")


def design_check(ctx, **kw):
    """the mechanism as designed never violates a clause (exhaustive within the constants)"""
    plain, _ = ctx.tlc_ok("SchedDesign", design_cfg(**kw), timeout=700)
    ctx.cov.setdefault("design_constants", []).append({k: str(v) for k, v in kw.items()})


DEFECTS = {"regen_today": {}, "no_priority": {}, "lifo": {}, "drop_overdue": {}, "drain_backlog": {"stop": True}, "swallow": {"fail": True}}


def design_selftest(ctx, names):
    """known wrong mechanisms are noticed by the invariant"""
    for n in names:
        rc, plain, vals, err = ctx.tlc("SchedDesign", design_cfg(defect=n, **DEFECTS[n]), timeout=300)
        if rc == 0:
            raise MachineryError(f"SchedDesign does not notice the defect {n}")
    ctx.cov["design_defects_noticed"] = list(names)


def design_scns(ctx, num, **kw):
    """behaviours of the design, chosen by TLC, to be replayed in the real process"""
    kw = dict({"horizon": 9, "ticks": 4, "nreg": 3}, **kw)
    plain, vals = ctx.tlc_ok("SchedDesign", design_cfg(inv=["Scenario"], view=False, **kw), simulate=(num, 60, ctx.rng.randrange(1, 2**30)), workers=1, timeout=300)
    out, seen = [], set()
    for v in vals:
        k = json.dumps(v, sort_keys=True)
        if k in seen:
            continue
        seen.add(k)
        t = DAY // v["ticks"]
        s = Scn(rdate(ctx.rng), v["start"] * t)
        s.per = [[t, t + 60]]
        s.peropt = give_periods(ctx.rng, s.per)
        n = {}
        for i, r in enumerate(v["regs"]):
            s.add(clock(r["h"] * 3600) if r["k"] == "clock" else {"k": "minute"}, f=f"f{i + 1}")
        for i, d, fails in v["durs"]:
            f = f"f{i}"
            n[f] = n.get(f, 0) + 1
            s.durs.setdefault(f, []).append(d * t * 1000)
            if fails:
                s.raises[f] = [n[f], "plain"]
        for f in s.durs:
            s.durs[f] += [0] * 40
        if v["stop"] >= 0:
            s.sigs = [[v["stop"] * t + 1, 0, ctx.rng.choice([15, 2])]]
        s.end = [v["horizon"] * t + 10, 0]
        s.tag = "design"
        out.append(s)
    return out


def horizon_scns(rng, n, days=(2, 9)):
    """uptimes past the batch of days generated at a time, with small batches"""
    out = []
    for _ in range(n):
        s = random_scn(rng)
        s.regs = s.regs[:3]
        batch = rng.choice([1, 1, 2, 3, 5])
        s.config = f"SCHEDULER_EVENT_DAYS_COUNT = {batch}\n"
        nd = rng.randrange(*days)
        s.end = [nd * DAY + rng.randrange(DAY), 777]
        s.tag = f"batch"
        out.append(s)
    return out


def many_scns(rng, n):
    """more registrations than one digit counts, of few functions with names that extend each other"""
    out = []
    for _ in range(n):
        s = random_scn(rng, days=1)
        s.regs, s.durs, s.raises, s.sigs = [], {}, {}, []
        pool = rng.sample(["t", "t1", "t11", "t_1", "t_", "T", "T1", "_t", "tt"], rng.choice([3, 4]))
        if rng.random() < .7:
            pool = ["t", "t1"] + pool[:1]
        near = rng.randrange(DAY)
        for i in range(rng.choice([11, 12, 15, 21, 24, 30])):
            t = near if rng.random() < .3 else rng.randrange(DAY) if rng.random() < .5 else near + rng.randrange(60)
            s.add(clock(t % DAY, rng.choice([0, 1])), f=rng.choice(pool))
        s.end = [2 * DAY, 777]
        s.tag = "many"
        out.append(s)
    return out


def long_scns(rng, n):
    """uptimes of one to two years with the default batch"""
    out = []
    for k in range(n):
        s = random_scn(rng)
        s.regs = s.regs[:rng.choice([1, 2])]
        s.durs, s.raises = {}, {}
        if rng.random() < .5:
            s.durs = {s.regs[0]["f"]: [0] * rng.randrange(300) + [rng.choice([1000, 40 * 86400000])] + [0] * 800}
        s.end = [rng.choice([366, 367, 380, 500, 735, 760]) * DAY + rng.randrange(DAY), 777]
        s.tag = "year"
        out.append(s)
    return out


def how_scns(rng, n):
    """every way of passing a function"""
    out = []
    for k in range(n):
        s = random_scn(rng, days=1)
        s.regs = []
        near = rng.randrange(DAY)
        for i, how in enumerate(rng.sample(["plain", "lambda", "closure", "method", "imported", "kw", "samename", "lambda", "closure"], rng.choice([2, 3, 4]))):
            s.add(clock((near + rng.choice([0, 0, 5, 60])) % DAY), f=f"f{i}", how=how)
        s.durs = {}
        s.end = [2 * DAY, 777]
        s.tag = "function"
        out.append(s)
    return out


def fam_c01(ctx):
    design_check(ctx, **ctx.pick({}, {"nreg": 3, "horizon": 9}))
    if ctx.thorough:
        design_check(ctx, batch=1, horizon=12)
        design_selftest(ctx, ["regen_today", "drop_overdue"])
    rng = ctx.rng
    n = ctx.pick(1, 8)
    scns = tagged("random", [random_scn(rng) for _ in range(70 * n)])
    scns += tagged("random+sync", [random_scn(rng, sync=True, minute=rng.random() < .3) for _ in range(15 * n)])
    scns += tagged("minute", [random_scn(rng, minute=True) for _ in range(15 * n)])
    scns += horizon_scns(rng, 30 * n) + how_scns(rng, 15 * n) + many_scns(rng, 15 * n) + long_scns(rng, 6 * n)
    scns += design_scns(ctx, 25 * n)
    run_scns(ctx, scns)


def fam_c02(ctx):
    design_check(ctx, **ctx.pick({"horizon": 8}, {"nreg": 3, "horizon": 9}))
    if ctx.thorough:
        design_selftest(ctx, ["no_priority", "lifo"])
    rng = ctx.rng
    n = ctx.pick(1, 8)
    scns = tagged("minute", [random_scn(rng, minute=True, days=1) for _ in range(50 * n)])
    scns += tagged("minute+sync", [random_scn(rng, minute=True, sync=True, days=1) for _ in range(40 * n)])
    scns += tagged("random", [random_scn(rng) for _ in range(40 * n)])
    scns += tagged("ties", [ties_scn(rng) for _ in range(30 * n)])
    scns += design_scns(ctx, 25 * n)
    run_scns(ctx, scns)


def ties_scn(rng):
    """many tasks at the same instant, reached by different expressions, with several registrations"""
    s = random_scn(rng, minute=False, days=1)
    s.regs = []
    a = rng.randrange(2, 18 * 60) * 60
    b = a + rng.choice([0, 60, 120, 600])
    s.per = [[a, b]]
    s.peropt = give_periods(rng, s.per)
    t = rng.choice([a, b])
    forms = [clock(t), shifted("open", t - a) if t >= a else clock(t), shifted("close", t - b), clock(t, 1), clock(t)]
    for i in range(rng.choice([3, 4, 5, 6])):
        s.add(rng.choice(forms), f=f"f{i}")
    for i in range(rng.choice([0, 1, 2])):
        s.regs.insert(rng.randrange(len(s.regs) + 1), {"f": f"m{i}", "x": {"k": "minute"}, "how": "plain"})
    s.start = max(0, t - rng.choice([0, 1, 60, 4000]))
    s.durs = {r["f"]: [rng.choice([0, 0, 1, 700, 60000, 61000])] for r in s.regs if rng.random() < .5}
    s.end = [s.start // DAY * DAY + DAY + rng.randrange(DAY), 777]
    s.sigs = []
    if rng.random() < .4:
        s.gate = {"sb_durs": [rng.choice([0, 5, 1200])]}
        s.opts.update({"sync_internal": 60, "sync_period": [[hms(max(a - 60, 0)), hms(b)]]})
    return s


def fam_c03(ctx):
    rng = ctx.rng
    n = ctx.pick(1, 8)
    run_texts(ctx, 420 * n)
    scns = tagged("random", [random_scn(rng, minute=rng.random() < .3, days=1) for _ in range(60 * n)])
    run_scns(ctx, scns)


def fam_c04(ctx):
    design_check(ctx, **ctx.pick({"stop": True, "horizon": 8}, {"stop": True, "fail": True, "horizon": 10}))
    design_check(ctx, fail=True, horizon=6)
    if ctx.thorough:
        design_selftest(ctx, ["drain_backlog", "swallow"])
    rng = ctx.rng
    n = ctx.pick(1, 8)
    scns = tagged("stop", [random_scn(rng, stop=True) for _ in range(60 * n)])
    scns += tagged("stop+minute", [random_scn(rng, stop=True, minute=True, days=1) for _ in range(25 * n)])
    scns += tagged("stop+sync", [random_scn(rng, stop=True, sync=True, days=1) for _ in range(20 * n)])
    scns += tagged("fail", [random_scn(rng, fail=True) for _ in range(45 * n)])
    scns += tagged("fail+minute", [random_scn(rng, fail=True, minute=True, days=1) for _ in range(15 * n)])
    scns += tagged("fail+stop", [random_scn(rng, fail=True, stop=True, days=1) for _ in range(15 * n)])
    scns += design_scns(ctx, 20 * n, stop=True) + design_scns(ctx, 20 * n, fail=True, stop=True)
    run_scns(ctx, scns)


def fam_c06(ctx):
    run_acctsync(ctx, ctx.pick(110, 700))


FAMILIES = {"C01": fam_c01, "C02": fam_c02, "C03": fam_c03, "C04": fam_c04, "C06": fam_c06}
