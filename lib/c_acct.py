"""Child side of the account scenarios: one strategy process with a scripted trade gate; a task runs a script of API calls."""
import datetime
import hashlib
import json
import os
import random
import sys
import uuid

import rt
from jqtrade.account.trade_gate import AbsTradeGate

JOB = None
CALLS = []
PENDING = []          # outcomes of the next gate calls
REPORT = {}           # what the next synchronisation returns
SNAPS = []


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


def failure(kind):
    if kind == "key":
        return KeyError("k")
    if kind == "os":
        return OSError(28, "No space left on device")
    if kind == "odd":
        return Odd(1, 2)
    if kind == "timeout":
        from jqtrade.common.exceptions import TimeOut
        return TimeOut("waiting")
    if kind == "param":
        from jqtrade.common.exceptions import InvalidParam
        return InvalidParam("bad")
    if kind == "empty":
        return Exception()
    return RuntimeError("refused")


def num(x):
    if x is None:
        return "None"
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        try:
            import numbers
            if isinstance(x, numbers.Number):
                return repr(float(x))
        except Exception:
            pass
        return "t:" + str(x)
    return repr(float(x))


def integer(x):
    try:
        return int(x) if int(x) == x else -987654
    except Exception:
        return -987654


def text(x):
    return x if isinstance(x, str) else repr(x)


def idtext(x):
    return x if isinstance(x, str) else f"{type(x).__name__} {x!r}"


class Gate(AbsTradeGate):
    def setup(self, options):
        rt.emit(e="gsetup")

    def order(self, o):
        out = PENDING.pop(0) if PENDING else "ok"
        CALLS.append({"k": "order", "id": text(o.order_id), "code": text(o.code), "amt": integer(o.amount), "act": text(o.action.value),
                      "side": text(o.side.value), "style": text(o.style.value), "price": num(o.style.price),
                      "out": "ok" if out == "ok" else "raise"})
        if out != "ok":
            raise failure(out)

    def cancel_order(self, oid):
        out = PENDING.pop(0) if PENDING else "ok"
        CALLS.append({"k": "cancel", "id": text(oid), "out": "ok" if out == "ok" else "raise",
                      "code": "", "amt": 0, "act": "", "side": "", "style": "", "price": ""})
        if out != "ok":
            raise failure(out)

    def sync_balance(self):
        r = REPORT["b"]
        if r[0] == "raise":
            raise failure(r[1])
        return conv(r[1])

    def sync_orders(self):
        r = REPORT["o"]
        if r[0] == "raise":
            raise failure(r[1])
        return conv(r[1])


def conv(x):
    """report as the gate returns it: {"$dt": [...]} stands for a datetime"""
    if isinstance(x, dict):
        if "$dt" in x:
            return datetime.datetime(*x["$dt"])
        if "$st" in x:
            from jqtrade.account.order import OrderStatus
            return OrderStatus[x["$st"]]
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, list):
        return [conv(v) for v in x]
    return x


def h(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def tm(x):
    return x.isoformat() if isinstance(x, datetime.datetime) else text(x)


def proj(key, o):
    d = {"key": idtext(key), "id": idtext(o.order_id), "code": text(o.code), "amt": integer(o.amount), "price": num(o.order_price),
         "act": text(o.action), "side": text(o.side), "status": text(o.status), "filled": integer(o.filled_amount),
         "canceled": integer(o.canceled_amount), "avg": num(o.avg_price), "deal": num(o.deal_balance), "comm": num(o.commission),
         "err": text(o.err_msg), "style": text(o.style.value), "ent": tm(o.entrust_time)}
    d["rest"] = h([num(o.style.price), tm(o.create_time)])
    return d


def projs(res):
    return [proj(k, o) for k, o in res.items()]


def position(code, p):
    val = p.position_value
    hv = isinstance(val, int) and not isinstance(val, bool)
    return {"code": text(code), "amt": integer(p.total_amount), "avail": integer(p.closeable_amount), "cost": num(p.avg_cost),
            "last": num(p.last_price), "val": num(val), "hasval": hv, "vali": val if hv else 0}


def portfolio(context):
    pf = context.portfolio
    lo, sh = pf.long_positions, pf.short_positions
    alias = list(pf.positions) == list(lo)
    for side, ps in (("long", lo), ("short", sh)):
        for c, p in ps.items():
            q = ps[c]
            alias = alias and p.security == c and p.code == c and p.price == p.last_price and p.value == p.position_value \
                and p.acc_avg_cost == p.avg_cost and p.side == side and p.locked_amount == p.total_amount - p.closeable_amount \
                and q.total_amount == p.total_amount
    e = lo["999999.XSHE"]
    alias = alias and e.total_amount == 0 and e.closeable_amount == 0 and "999999.XSHE" not in pf.long_positions
    try:
        s = integer(pf.position_value)
    except TypeError:
        s = -987654
    return {"total": num(pf.total_value), "cash": num(pf.available_cash), "locked": num(pf.locked_cash),
            "long": [position(c, p) for c, p in lo.items()], "short": [position(c, p) for c, p in sh.items()], "sum": s, "alias": bool(alias)}


def emit(context, g, **k):
    k["calls"] = list(CALLS)
    CALLS.clear()
    PENDING.clear()
    k["orders"] = projs(g["get_orders"]())
    k["port"] = portfolio(context)
    k["snaps"] = [h(proj(a, o)) for a, o in SNAPS]
    rt.emit(**k)


def style_of(s, g):
    if s[0] == "market":
        return g["MarketOrderStyle"](*s[1:])
    if s[0] == "limit":
        return g["LimitOrderStyle"](s[1])
    b = s[1]
    if b == "class":
        return g["LimitOrderStyle"]
    if b == "base":
        from jqtrade.account.order import OrderStyle
        return OrderStyle(1)
    return b


def kwargs_of(r, g, batch=False):
    kw = {}
    if "code" in r:
        kw["code"] = r["code"]
    if "amount" in r:
        kw["amount"] = r["amount"]
    if r["style"][0] != "none":
        kw["style"] = style_of(r["style"], g)
    if r["side"][0] != "none":
        kw["side"] = r["side"][1]
    return kw


def retval(v):
    if v is None:
        return {"k": "none", "v": ""}
    return {"k": "id", "v": v} if isinstance(v, str) else {"k": "other", "v": repr(v)}


def attempt(f):
    try:
        return retval(f())
    except Exception as e:
        return {"k": "raise", "v": type(e).__name__}


def resolve(ids, i):
    """step references to orders: ["nth", k] the k-th known order, or text"""
    if isinstance(i, list):
        if i[0] == "nth":
            return ids[i[1] % len(ids)] if ids else "777"
        if i[0] == "num":
            x = resolve(ids, i[1:] if len(i) > 2 else i[1])
            return int(x) if x.isdigit() and str(int(x)) == x else x
    return i


def known(g):
    return [str(k) for k in g["get_orders"]()]


def fill(lines, ids):
    out = []
    for ln in lines:
        ln = dict(ln)
        if isinstance(ln.get("order_id"), list):
            ln["order_id"] = resolve(ids, ln["order_id"])
        out.append(ln)
    return out


def complete(rep, g):
    """an update of a known order repeats its code, direction, side and price style"""
    cur = g["get_orders"]()
    for ln in rep:
        o = cur.get(ln.get("order_id"))
        if o is not None:
            for k, v in (("code", o.code), ("action", o.action), ("style", o.style.value), ("side", o.side)):
                if k in ln:
                    ln[k] = v
            if o.side != "long":
                ln["side"] = o.side
            if ln.get("price") == "same":
                ln["price"] = o.order_price
            if ln.get("amount") == "same":
                ln["amount"] = o.amount
            if ln.get("create_time") is not None:
                ln["create_time"] = {"$dt": [o.create_time.year, o.create_time.month, o.create_time.day, o.create_time.hour,
                                             o.create_time.minute, o.create_time.second, o.create_time.microsecond]}
        else:
            if ln.get("price") == "same":
                ln["price"] = 8
            if ln.get("amount") == "same":
                ln["amount"] = 100
    return rep


def abstract_line(ln):
    """the report line in the terms of the specification; None when it is malformed"""
    need = ("order_id", "code", "price", "amount", "action", "status", "style", "create_time")
    if any(k not in ln for k in need):
        return None
    st = ln["status"]["$st"] if isinstance(ln["status"], dict) else ln["status"]
    if st not in ("new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected") or ln["action"] not in ("open", "close"):
        return None
    def opt(k, f):
        return f(conv(ln[k])) if k in ln else "?"
    return {"id": ln["order_id"], "code": ln["code"], "amt": ln["amount"], "price": num(ln["price"]), "act": ln["action"],
            "side": ln.get("side", "long"), "status": st, "filledk": "!" if "filled_amount" in ln else "?", "filled": ln.get("filled_amount", 0),
            "canceledk": "!" if "canceled_amount" in ln else "?", "canceled": ln.get("canceled_amount", 0),
            "deal": opt("deal_balance", num), "comm": opt("commission", num), "avg": opt("avg_cost", num), "err": opt("err_msg", text), "ent": opt("entrust_time", tm)}


def abstract_balance(r):
    bad = {"ok": False, "total": "", "cash": "", "locked": "", "pos": []}
    if r[0] != "ok":
        return bad
    b = r[1]
    c = b["cash"]
    pos = [{"code": p["code"], "amt": p["amount"], "avail": p["available_amount"], "cost": num(p["avg_cost"]), "last": num(p.get("last_price")),
            "val": num(p.get("position_value")), "side": p.get("side", "long")} for p in b["positions"]]
    return {"ok": True, "total": next((num(c[k]) for k in ("total_asset", "total_assert") if k in c), "?"),
            "cash": num(c["available_cash"]) if "available_cash" in c else "?", "locked": num(c["locked_cash"]) if "locked_cash" in c else "?", "pos": pos}


def absreq(r):
    code = r.get("code")
    t = isinstance(code, str)
    a = r.get("amount")
    ai = isinstance(a, int)
    st = r["style"]
    return {"codek": "text" if t else "other", "code": code if t else "", "chars": list(code) if t else [], "amtk": "int" if ai else "other",
            "amt": a if ai else 0, "style": st[0], "price": num(st[1]) if st[0] in ("market", "limit") and len(st) > 1 else num(0),
            "side": r["side"][0] if r["side"][0] in ("none", "bad") else r["side"][1]}


def do(context, g, s):
    op = s["op"]
    ids = known(g)
    PENDING.clear()
    PENDING.extend(s.get("gate", []))
    if op == "order":
        kw = kwargs_of(s["req"], g)
        if s.get("positional"):
            a = [kw.pop("code"), kw.pop("amount")]
            for k in ("style", "side"):
                if k in kw:
                    a.append(kw.pop(k))
                else:
                    break
            ret = attempt(lambda: g["order"](*a, **kw))
        else:
            ret = attempt(lambda: g["order"](**kw))
        emit(context, g, e="order", req=absreq(s["req"]), ret=ret)
    elif op == "batch":
        reqs = [kwargs_of(r, g) for r in s["reqs"]]
        try:
            out = g["batch_submit_orders"](reqs)
            if isinstance(out, (list, tuple)):
                rets, ret = [retval(v) for v in out], {"k": "list", "v": ""}
            else:
                rets, ret = [], {"k": "other", "v": ""}
        except Exception as e:
            rets, ret = [], {"k": "raise", "v": type(e).__name__}
        emit(context, g, e="batch", reqs=[absreq(r) for r in s["reqs"]], rets=rets, ret=ret)
    elif op == "cancel":
        i = resolve(ids, s["id"])
        ret = attempt(lambda: g["cancel_order"](i))
        emit(context, g, e="cancel", id=str(i), ret=ret)
    elif op == "cancels":
        xs = []
        for i in s["ids"]:
            i = resolve(ids, i)
            if str(i) not in [str(x) for x in xs]:
                xs.append(i)
        ret = attempt(lambda: g["batch_cancel_orders"](xs))
        emit(context, g, e="cancels", ids=[str(i) for i in xs], ret=ret)
    elif op == "balance":
        REPORT["b"] = s["rep"]
        ret = attempt(lambda: g["sync_balance"]())
        emit(context, g, e="balance", rep=abstract_balance(s["rep"]), ret=ret)
    elif op == "orders":
        r = s["rep"]
        if r[0] == "ok" or r[0] == "bad" and isinstance(r[1], list):
            lines = complete(fill(r[1], ids), g)
            REPORT["o"] = ["ok", lines]
            al = [abstract_line(x) for x in lines]
            for x in lines:                     # a gate may report its ids as numbers
                if x.pop("idnum", False) and str(x.get("order_id", "")).isdigit() and str(int(x["order_id"])) == str(x["order_id"]):
                    x["order_id"] = int(x["order_id"])
            rep = {"ok": all(x is not None for x in al), "lines": [x for x in al if x is not None]}
        else:
            REPORT["o"] = ["ok", r[1]] if r[0] == "bad" else r
            rep = {"ok": False, "lines": []}
        ret = attempt(lambda: g["sync_orders"]())
        emit(context, g, e="orders", rep=rep, ret=ret)
    elif op == "query":
        q = s["q"]
        kw = {}
        a = {"idk": "none", "id": "", "codek": "none", "code": "", "statusk": "none", "status": ""}
        if "id" in q:
            kw["order_id"] = resolve(ids, q["id"])
            a["idk"], a["id"] = "text", str(kw["order_id"])
        if "code" in q:
            c = q["code"]
            if isinstance(c, list):
                cur = list(g["get_orders"]().values())
                c = cur[c[1] % len(cur)].code if cur else "000001.XSHE"
            kw["code"] = c
            a["codek"], a["code"] = "valid", c
        if "status" in q:
            st = q["status"]
            kw["status"] = st[1] if st[0] == "text" else g["OrderStatus"][st[1]]
            a["statusk"], a["status"] = st[0], st[1]
        got = []
        try:
            res = g["get_orders"](**kw)
            got = projs(res)
            ret = {"k": "list", "v": ""}
        except Exception as e:
            ret = {"k": "raise", "v": type(e).__name__}
            res = {}
        emit(context, g, e="query", q=a, got=got, ret=ret)
        keep(context, g, res)
    elif op == "snap":
        keep(context, g, g["get_orders"]())


def keep(context, g, res):
    if not res:
        return
    new = list(res.items())
    while len(SNAPS) + len(new) > 40:
        new.pop()
    SNAPS.extend(new)
    emit(context, g, e="snap")


def run(context, g):
    REPORT.setdefault("b", ["raise", "x"])
    bal = JOB.get("start_balance")
    emit(context, g, e="begin", balk="good" if bal and bal[0] == "ok" else "none",
         bal=abstract_balance(bal) if bal else abstract_balance(["no"]))
    for s in JOB["steps"]:
        do(context, g, s)
        rt.advance_ms(s.get("ms", 0))
    rt.emit(e="done")
    os._exit(0)


def main(job, d):
    global JOB
    JOB = job
    sys.modules["c_acct"] = sys.modules[__name__]
    rt.open_trace(d)
    rt.fake_psutil()
    import jqtrade.account.config as acfg
    acfg.get_config().TRADE_GATE = "c_acct.Gate"
    rng = random.Random(job.get("idseed", 1))
    n = [0]

    def uuid4():
        n[0] += 1
        hi = rng.getrandbits(96) << 32
        return uuid.UUID(int=(hi | rng.randrange(2 + n[0])) & ((1 << 128) - 1))
    if job.get("idseed"):
        uuid.uuid4 = uuid4
    code = os.path.join(d, "strat.py")
    bal, ords = job.get("start_balance"), job.get("start_orders")
    REPORT["b"] = bal or ["raise", "x"]
    REPORT["o"] = ords or ["raise", "x"]
    with open(code, "w") as f:
        f.write("import c_acct\n\n\ndef process_initialize(context):\n"
                f"    set_options(use_account=True, account_no='1', runtime_dir='rt', sync_balance={bool(bal)}, sync_order={bool(ords)},\n"
                "                sync_period=[('23:59:00', '23:59:00')])\n"
                "    run_daily(work, '10:00:00')\n\n\n"
                "def work(context):\n    c_acct.run(context, globals())\n")
    rt.start_clock(2026, 3, 2, 9, 59, 59)
    rt.L.vt_set_end(rt.at(11 * 3600))
    try:
        rt.cli("start_task", "-n", "vtask", "-c", code, "-o", os.path.join(d, "out.log"))
    except BaseException as e:
        import traceback
        rt.emit(e="died", err=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-800:])
    return 0
