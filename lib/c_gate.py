"""Child side of the gate scenarios: several lives of one strategy with the built-in gate; the broker's files are written by this driver."""
import datetime
import json
import os
import sys

import rt
from c_acct import num, integer, text, tm

JOB = None
LIFE = None
D = None
FILES = {"upd": "orderUpdate", "res": "execResult", "order": "algoOrder", "cancel": "algoOrderStop"}
UPD = ("updTime,orderDate,orderTime,acctType,acct,symbol,tradeSide,status,orderQty,orderPrice,orderType,filledQty,avgPrice,"
       "filledAmt,cancelQty,orderNo,corrId,custBatchNo,text,cliOrderId")
RES = "updTime,resultType,custBatchNo,status,errorCode,errorMsg"
ST = {"0": "open", "1": "filling", "2": "filled", "3": "partly_canceled", "4": "canceled", "5": "rejected", "7": "new", "8": "canceling"}


BROKER_DAY = None


def today():
    if BROKER_DAY:
        return BROKER_DAY
    return datetime.datetime.fromtimestamp(rt.L.vt_now() / 10**9).strftime("%Y%m%d")


def path(f, day):
    return os.path.join(D, "w", "orders", f"{FILES[f]}_{day}.csv")


def state(new=None):
    p = os.path.join(D, "state.json")
    if new is not None:
        with open(p, "w") as fp:
            json.dump(new, fp)
        return new
    return json.load(open(p)) if os.path.exists(p) else {"ids": [], "other": [], "q": {}}


# ------------------------------------------------------------------ the broker
def who(ids, w):
    if isinstance(w, list) and w[0] == "other":       # an order of the other strategy
        o = state()["other"]
        return o[w[1] % len(o)] if o else "777"
    if isinstance(w, list):
        return ids[w[1] % len(ids)] if ids else "999"
    return w


def render(f, x, ids):
    """(abstract line, bytes) of a line template"""
    k = x["k"]
    none = {"st": "", "f": 0, "c": 0, "a": "", "d": "", "e": "", "t": ""}
    a = {"f": f, "k": "none", "id": "", "v": none, "m": ""}
    end = JOB.get("nl", "\n")
    cod = JOB.get("coding", "utf-8")
    if k == "blank":
        return a, (x.get("s", "") + end).encode(cod)
    if k == "header":
        return a, ((UPD if f == "upd" else RES) + end).encode(cod)
    i = who(ids, x["who"])
    if f == "res":
        cells = ["093000.000", x["type"], i, x["status"], x.get("code", "0"), x.get("msg", "")]
        if x["type"] == "1" and x["status"] == "1":
            a.update(k="rej", id=i, m=x.get("msg", ""))
    else:
        t = x["time"]
        cells = ["093000.000", x["date"], t, "UM0", "1", "000001.SZ", "1", x["st"], "100", "10.0", "AT", str(x["f"]), x["a"], x["d"], str(x["c"]),
                 x.get("no", "b1"), "c", i, x.get("msg", ""), "k"]
        if k == "upd":
            y = datetime.datetime.strptime(x["date"] + t, "%Y%m%d%H%M%S")
            a.update(k="upd", id=i, v={"st": ST[x["st"]], "f": x["f"], "c": x["c"], "a": num(round(float(x["a"]), 3)),
                                       "d": num(round(float(x["d"]), 4)), "e": x.get("msg", ""), "t": y.isoformat()})
    if k == "bad":
        a = {"f": f, "k": "bad", "id": i, "v": none, "m": ""}
        h = x["how"]
        if h in ("status", "qty", "emptyqty", "price", "date") and i not in ids:
            a["k"] = "none"              # another strategy's order: its values need not be understood
        if h == "short":
            cells = cells[:-1]
        elif h == "long":
            cells.append("x")
        elif h == "one":
            cells = ["broken"]
        elif h == "status":
            cells[7] = "9"
        elif h == "qty":
            cells[11] = "12x"
        elif h == "emptyqty":
            cells[14] = ""
        elif h == "price":
            cells[12] = "--"
        elif h == "date":
            cells[1] = "20261301"
        elif h == "enc":
            return a, b",".join([c.encode(cod) for c in cells[:-2]] + [b"\xff\xfe\xff", cells[-1].encode(cod)]) + end.encode()
    pad = x.get("pad", "")
    return a, (",".join(pad + c for c in cells) + end).encode(cod)


def broker(op):
    s = state()
    day = today()
    if op[0] == "fill":              # many requests of other strategies
        with open(path(op[1], day), "a", encoding=JOB.get("coding", "utf-8")) as f:
            f.write(HEAD[op[1]] + "\n" + "".join(f"093000.000000,fill{i}" + (",UM0,other,600000.SH,1,100,DMA,P6,0,0,0" if op[1] == "order" else "") + "\n" for i in range(op[2])))
        return
    q = s["q"].setdefault(day + op[1], {"lines": [], "data": "", "put": 0})
    if op[0] == "line":
        a, b = render(op[1], op[2], s["ids"])
        q["lines"].append(len(b))
        q["data"] += b.decode("latin1")
        state(s)
        rt.emit(e="line", d=day, d1=day, **a)
        return
    data = q["data"].encode("latin1")
    how = op[2]
    left = len(data) - q["put"]
    if how == "all":
        n = left
    elif how == "touch":
        n = 0
    elif how[0] == "lines":          # so many complete lines, and a part of the next one
        k = min(how[1], len(q["lines"]))
        n = sum(q["lines"][:k])
        if k < len(q["lines"]) and how[2] != "none":
            m = q["lines"][k] - len(JOB.get("nl", "\n"))
            n += m if how[2] == "full" else int(m * how[3])
        n = max(0, n - q["put"])
    elif how[0] == "frac":
        n = int(left * how[1])
    elif how[0] == "upto":           # all but the last bytes
        n = max(0, left - how[1])
    else:                            # up to within the k-th pending line
        n = min(left, how[1])
    with open(path(op[1], day), "ab") as fp:
        fp.write(data[q["put"]:q["put"] + n])
    q["put"] += n
    k = pos = 0
    while k < len(q["lines"]) and pos + q["lines"][k] <= q["put"]:
        pos += q["lines"][k]
        k += 1
    tail = "none"
    if q["put"] > pos:
        rest = data[q["put"]:pos + q["lines"][k]]
        tail = "full" if rest in (b"\n", b"\r\n") else "part"
    state(s)
    rt.emit(e="flush", d=day, d1=day, f=op[1], n=k, tail=tail)


# ------------------------------------------------------------------ the strategy
def priced(p):
    return num(float(p)) if isinstance(p, (int, float)) else num(p)


def view(g):
    out = []
    for key, o in g["get_orders"]().items():
        style = text(o.style.value)
        out.append({"id": text(o.order_id) if o.order_id == key else "key " + text(key),
                    "b": {"code": text(o.code), "amt": integer(o.amount), "act": text(o.action), "side": text(o.side), "style": style,
                          "price": priced(o.style.price) if style == "limit" else "market"},
                    "v": {"st": text(o.status), "f": integer(o.filled_amount), "c": integer(o.canceled_amount), "a": num(o.avg_price),
                          "d": num(o.deal_balance), "e": text(o.err_msg), "t": tm(o.entrust_time)}})
    return out


def listing():
    out = {}
    base = os.path.join(D, "w", "orders")
    for n in sorted(os.listdir(base)):
        if n.startswith("algoOrder") and os.path.isfile(os.path.join(base, n)):
            out[n] = open(os.path.join(base, n), "rb").read()
    return out


HEAD = {"order": "updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice",
        "cancel": "updTime,custBatchNo"}


def price_cell(c):
    try:
        return num(float(c))
    except ValueError:
        return "t:" + c


def cells(f, ln):
    c = ln.split(",")
    z = {"id": "", "type": "", "acct": "", "symbol": "", "side": "", "qty": "", "algo": "", "ptype": "", "high": "", "low": "", "cols": len(c)}
    if f == "order" and len(c) == 12:
        z.update(id=c[1], type=c[2], acct=c[3], symbol=c[4], side=c[5], qty=c[6], algo=c[7], ptype=c[8], high=price_cell(c[10]), low=price_cell(c[11]))
    elif f == "cancel" and len(c) == 2:
        z.update(id=c[1])
    else:
        z["id"] = "columns " + ln
    return z


def wrote(before, after, f_full=False):
    out = []
    cod = JOB.get("coding", "utf-8")
    for n in sorted(set(before) | set(after)):
        x, y = before.get(n, b""), after.get(n, b"")
        f = "cancel" if n.startswith("algoOrderStop_") else "order"
        bx, by = x[:x.rfind(b"\n") + 1], y[:y.rfind(b"\n") + 1]
        if x == y or (f_full and (bx == by or (bx == b"" and by.decode(cod, "replace").strip() == HEAD[f]))):
            continue                 # (a full disk may leave half a line, or a header without lines)
        w = {"f": f, "day": n.split("_")[-1][:8], "first": x == b"", "head": False, "intact": False, "lines": []}
        x = bx                       # a half line that a dead process left behind is nobody's request and may go
        w["first"] = x == b""
        if y.startswith(x) and y.endswith(b"\n"):
            try:
                lns = y[len(x):].decode(cod).replace("\r\n", "\n").split("\n")[:-1]
                w["intact"] = all(lns)
                if lns and lns[0] == HEAD[f]:
                    w["head"] = True
                    lns = lns[1:]
                w["lines"] = [cells(f, ln) for ln in lns]
            except UnicodeDecodeError:
                pass
        out.append(w)
    return out


def requested(o):
    side = o.get("side") or "long"
    st = o["style"]
    style = "limit" if st[0] == "limit" else "market"
    return {"code": o["code"], "amt": abs(o["amount"]), "act": "close" if o["amount"] < 0 else "open", "side": side, "style": style,
            "price": priced(st[1]) if style == "limit" else "market"}


def next_midnight(n=1):
    t = datetime.datetime.fromtimestamp(rt.L.vt_now() / 10**9)
    m = datetime.datetime(t.year, t.month, t.day) + datetime.timedelta(days=n)
    return int(m.timestamp()) * 10**9


def do(g, op):
    k = op[0]
    if k in ("line", "flush"):
        return broker(op)
    if k == "ms":
        return rt.advance_ms(op[1])
    if k == "midnight":           # to just before or after midnight
        return rt.L.vt_set(next_midnight() + op[1] * 10**6)
    if k == "exit":
        os._exit(0)
    if k == "term":
        import signal
        return os.kill(os.getpid(), signal.SIGTERM)
    if k == "block":              # the day's order file cannot be written
        if not os.path.isfile(path(op[1], today())):        # (unless another strategy has already written to it)
            os.makedirs(path(op[1], today()), exist_ok=True)
        return
    if k == "unblock":
        if os.path.isdir(path(op[1], today())):
            os.rmdir(path(op[1], today()))
        return
    after = None
    extra = {"fault": False}
    if k == "crash":
        rt.L.vt_fs_crash(os.path.join(D, "w").encode(), op[1], op[2])
        op = op[3]
        after = "fs"
    elif k == "full":             # the disk is full from the k-th operation of this request on, and has room again afterwards
        rt.L.vt_fs_full(os.path.join(D, "w", *op[4:]).encode(), op[1], op[2])
        op = op[3]
        after = "fs"
        extra = {"fault": True}
    elif k == "count":
        rt.L.vt_fs_count(os.path.join(D, "w").encode())
        op = op[1]
        after = "count"
    elif k == "jump":
        ms = op[2]
        if op[3][0] == "order":       # the request is on record before anything can happen
            pass
        rt.L.vt_jump_at_read(op[1], next_midnight() + ms * 10**6)
        op = op[3]
        after = "jump"
    elif k == "reads":
        rt.L.vt_jump_at_read(-2, 0)
        op = op[1]
        after = "reads"
    k = op[0]
    day = datetime.datetime.fromtimestamp(rt.L.vt_now() / 10**9).strftime("%Y%m%d")
    before = listing()
    if k == "order":
        o = op[1]
        b = requested(o)
        rt.emit(e="req", d=day, d1=day, b=b)
        kw = {}
        if o["style"][0] == "limit":
            kw["style"] = g["LimitOrderStyle"](o["style"][1])
        elif o["style"][0] == "market":
            kw["style"] = g["MarketOrderStyle"](*o["style"][1:])
        if o.get("side"):
            kw["side"] = o["side"]
        try:
            ret = g["order"](o["code"], o["amount"], **kw)
        except Exception as e:
            ret = None
            rt.emit(e="raised", what=f"{type(e).__name__}: {e}")
        ev = {"e": "sub", "ret": ret if isinstance(ret, str) else "" if ret is None else "?" + repr(ret), **b}
        ev["price"] = b["price"]
        ev["symbol"] = o["code"].replace("XSHE", "SZ").replace("XSHG", "SH")
        ev["qty"] = str(b["amt"])
        ev["acct"], ev["algo"], ev["type"] = str(JOB["opts"]["account_no"]), JOB["opts"].get("algo_type", "DMA"), JOB["opts"].get("counter_type", "UM0")
    elif k == "cancel":
        i = who(state()["ids"], op[1])
        try:
            g["cancel_order"](i)
        except Exception as e:
            rt.emit(e="raised", what=f"{type(e).__name__}: {e}")
        ev = {"e": "can", "id": str(i)}
    elif k == "sync":
        try:
            g["sync_orders"]()
        except Exception as e:
            rt.emit(e="raised", what=f"{type(e).__name__}: {e}")
        ev = {"e": "sync", "auto": False}
    else:
        ev = {"e": "view"}
    if after in ("fs", "count"):
        n = rt.L.vt_fs_ops()
        log = [rt.L.vt_fs_op(i).decode() for i in range(n)]
        rt.L.vt_fs_off()
        if after == "count":
            extra.update(fsops=n, fslog=log)
    elif after in ("jump", "reads"):
        n = rt.L.vt_read_count()
        rt.L.vt_jump_at_read(-2, 0)
        if after == "reads":
            extra["reads"] = n
    if k == "order" and ev["ret"]:
        s = state()
        s["ids"].append(ev["ret"])
        state(s)
    rt.emit(d=day, d1=today(), wrote=wrote(before, listing(), extra["fault"]), view=view(g), **ev, **extra)


CALLS = {}


def tick(i, context, g):
    if LIFE.get("crash"):
        rt.emit(e="startops", n=rt.L.vt_fs_ops(), log=[rt.L.vt_fs_op(j).decode() for j in range(rt.L.vt_fs_ops())])
        rt.L.vt_fs_off()
    n = CALLS[i] = CALLS.get(i, 0) + 1
    calls = LIFE["fns"][i]["calls"]
    if LIFE["auto"]:
        rt.emit(e="sync", d=today(), d1=today(), auto=True, view=view(g), wrote=[])
    elif not any(v for j, v in CALLS.items() if j != i) and n == 1:
        rt.emit(e="view", d=today(), d1=today(), view=view(g), wrote=[])
    for op in calls[n - 1] if n <= len(calls) else []:
        do(g, op)
    rt.emit(e="tickdone", i=i, n=n)


def machine(l):
    """the time of a life begins; the options every strategy here has in common"""
    sys.modules["c_gate"] = sys.modules[__name__]
    rt.fake_psutil()
    rt.start_clock(*JOB["day0"])
    rt.L.vt_enable(rt.at(l["start"]))
    rt.L.vt_set_end(rt.at(l["end"]))
    o = dict(JOB["opts"])
    o.update(runtime_dir=os.path.join(D, "w", "rt"), order_dir=os.path.join(D, "w", "orders"), use_account=True, sync_balance=False,
             file_encoding=JOB.get("coding", "utf-8"))
    return o


def neighbour_tick(g):
    for o in LIFE["other"]:
        g["order"](o["code"], o["amount"], **({"style": g["LimitOrderStyle"](o["style"][1])} if o["style"][0] == "limit" else {}))
    if LIFE["sync"]:
        g["sync_orders"]()
    os._exit(0)


def neighbour(l):
    """another strategy in the same directories"""
    global LIFE
    LIFE = l
    o = machine(l)
    code = os.path.join(D, "other.py")
    t = l["act_at"]
    with open(code, "w") as fp:
        fp.write(f"import c_gate\n\n\ndef f(context):\n    c_gate.neighbour_tick(globals())\n\n\ndef process_initialize(context):\n"
                 f"    set_options(sync_order=False, **{o!r})\n    run_daily(f, '{t // 3600:02}:{t // 60 % 60:02}:{t % 60:02}')\n")
    rt.cli("start_task", "-n", JOB["other"], "-c", code, "-o", os.path.join(D, "other.log"))


def life(l):
    global LIFE
    LIFE = l
    o = machine(l)
    code = os.path.join(D, "strat.py")
    o["sync_order"] = l["auto"]
    if "ignore" in l:
        o["ignore_error_line"] = l["ignore"]
    hms = lambda t: f"{t // 3600:02}:{t // 60 % 60:02}:{t % 60:02}"
    src = "import c_gate\nimport datetime\n\n\n"
    for i, f in enumerate(l["fns"]):
        src += f"def f{i}(context):\n    c_gate.tick({i}, context, globals())\n\n\n"
    src += "def process_initialize(context):\n"
    per = ", ".join(f"(datetime.time(*{tuple(map(int, hms(t - 30).split(':')))}), datetime.time(*{tuple(map(int, hms(t - 30).split(':')))}))"
                    for t in [f["at"] for f in l["fns"]])
    src += f"    set_options(sync_period=[{per}], **{o!r})\n"
    for i, f in enumerate(l["fns"]):
        src += f"    run_daily(f{i}, {hms(f['at'])!r})\n"
    with open(code, "w") as fp:
        fp.write(src)
    if l.get("crash"):
        rt.L.vt_fs_crash(os.path.join(D, "w").encode(), *l["crash"])
    try:
        rt.cli("start_task", "-n", JOB["name"], "-c", code, "-o", os.path.join(D, "out.log"))
    except BaseException as e:
        import traceback
        rt.emit(e="died", err=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-800:])
        os._exit(94)


def order_lines():
    out = []
    other = set(state()["other"])
    base = os.path.join(D, "w", "orders")
    for n in sorted(os.listdir(base)):
        p = os.path.join(base, n)
        if n.startswith("algoOrder_") and os.path.isfile(p):
            data = open(p, "rb").read()
            for ln in data[:data.rfind(b"\n") + 1].decode(JOB.get("coding", "utf-8"), "replace").replace("\r\n", "\n").split("\n"):
                if ln and ln != HEAD["order"]:
                    c = cells("order", ln)
                    if c["id"] in other or c["id"].startswith("fill"):
                        continue
                    code = c["symbol"].replace(".SZ", ".XSHE").replace(".SH", ".XSHG")
                    out.append({"id": c["id"], "day": n.split("_")[-1][:8],
                                "b": {"code": code, "amt": int(c["qty"]) if c["qty"].isdigit() else -1, "act": "open" if c["side"] == "1" else "close",
                                      "side": "long", "style": "limit" if c["ptype"] == "AT" else "market",
                                      "price": c["high"] if c["ptype"] == "AT" else "market"}})
    return out


def main(job, d):
    global JOB, D
    JOB, D = job, d
    rt.open_trace(d)
    os.makedirs(os.path.join(d, "w", "orders"))
    import random
    import uuid
    rng = random.Random(job.get("idseed", 1))
    for i, l in enumerate(job["lives"]):
        if "broker" in l:             # what the broker writes while the strategy is down
            global BROKER_DAY
            BROKER_DAY = (datetime.datetime(*job["day0"]) + datetime.timedelta(days=l["day"])).strftime("%Y%m%d")
            for op in l["broker"]:
                broker(op)
            BROKER_DAY = None
            continue
        seed = rng.getrandbits(64)
        sys.stdout.flush()
        sys.stderr.flush()
        if "other" in l:
            pid = os.fork()
            if pid == 0:
                r = random.Random(seed)
                random.seed(seed)
                uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128))
                try:
                    neighbour(l)
                finally:
                    os._exit(99)
            _, st = os.waitpid(pid, 0)
            s = state()
            new = [x["id"] for x in order_lines() if x["id"] not in s["ids"]]
            s["other"] += new
            state(s)
            rt.emit(e="neighbour", code=-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st), put=len(new), want=len(l["other"]))
            continue
        day = (datetime.datetime(*job["day0"]) + datetime.timedelta(seconds=l["start"])).strftime("%Y%m%d")
        rt.emit(e="life", d=day, d1=day, cfg={"ignore": l.get("ignore", True)}, nr=i)
        pid = os.fork()
        if pid == 0:
            r = random.Random(seed)
            random.seed(seed)
            uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128))
            try:
                life(l)
                os._exit(0)
            finally:
                os._exit(99)
        _, st = os.waitpid(pid, 0)
        o = order_lines()
        s = state()
        for x in o:
            if x["id"] not in s["ids"]:
                s["ids"].append(x["id"])
        state(s)
        rt.emit(e="dead", code=-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st), orders=o, nr=i)
    return 0
