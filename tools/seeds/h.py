# -*- coding: utf-8 -*-
"""Small helpers shared by the demonstrations; a copy lies beside each of them."""
import atexit
import datetime
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import types

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def scratch():
    d = tempfile.mkdtemp(prefix="demo")
    atexit.register(shutil.rmtree, d, True)
    return d


SCRATCH = scratch()
os.environ["HOME"] = SCRATCH


def check(ok, what):
    if not ok:
        print("DEMO FAILED: " + what)
        sys.stdout.flush()
        sys.exit(1)


def soon(secs):
    """The whole second `secs` seconds from now, on this same day."""
    while True:
        now = datetime.datetime.now()
        t = (now + datetime.timedelta(seconds=secs)).replace(microsecond=0)
        if t.date() == now.date() and (t + datetime.timedelta(seconds=30)).date() == now.date():
            return t
        time.sleep(1)


def start(code, args=(), name=None, env=None):
    d = scratch()
    path = os.path.join(d, "demostrategy.py")
    with open(path, "w", encoding="utf-8") as f:
        f.write("# -*- coding: utf-8 -*-\n" + code)
    e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.Popen(
        [sys.executable, "-m", "jqtrade", "start_task", "-n", name or "demo%d" % os.getpid(), "-c", path] + list(args),
        cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def finish(p, after=None, sig=signal.SIGTERM, limit=30):
    """Wait for the process; send `sig` after `after` seconds. Returns (exit code, output)."""
    if after is not None:
        time.sleep(after)
        if p.poll() is None:
            p.send_signal(sig)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


def account(gate, **options):
    """An account of the real class over the given gate, without a scheduler."""
    from jqtrade.scheduler.context import Context
    from jqtrade.account.account import Account
    from jqtrade.account.portfolio import Portfolio
    ctx = Context("demo", None, None, None, None, False, None, None)
    ctx.use_account = True
    ctx.trade_gate = gate
    acc = Account(ctx)
    ctx.account = acc
    ctx.portfolio = Portfolio(acc)
    gate.setup = getattr(gate, "setup", None) or (lambda o: None)
    acc.setup(dict(options, sync_balance=False, sync_order=False))
    return ctx


class Loop(object):
    """Stands in for the event loop where only the clock is asked."""
    def __init__(self, current=None, strategy=None):
        self.current = current
        self.strategy_dt = strategy

    @property
    def current_dt(self):
        return self.current or datetime.datetime.now()


def dma(loop=None, **options):
    """The built-in gate over scratch directories. Returns (gate, order directory, runtime directory)."""
    from jqtrade.scheduler.context import Context
    from jqtrade.account.trade_gate import AnXinDMATradeGate
    ctx = Context("demo", None, loop or Loop(), None, None, False, None, None)
    ctx.use_account = True
    files, run = options.pop("files", None) or scratch(), options.pop("run", None) or scratch()
    gate = AnXinDMATradeGate()
    ctx.trade_gate = gate
    gate.setup(dict({"account_no": "10086", "order_dir": files, "runtime_dir": run, "file_encoding": "utf-8"}, **options))
    return gate, files, run


def sys_order(order_id, code="000001.XSHE", amount=100, action="open", price=10.0):
    from jqtrade.account.order import Order, OrderStatus, OrderSide, LimitOrderStyle
    return Order(code=code, price=price, amount=amount, action=action, order_id=order_id,
                 style=LimitOrderStyle(price), create_time=datetime.datetime.now(),
                 status=OrderStatus.new, side=OrderSide.long)


UPDATE_HEADER = ("updTime,orderDate,orderTime,acctType,acct,symbol,tradeSide,status,orderQty,orderPrice,orderType,"
                 "filledQty,avgPrice,filledAmt,cancelQty,orderNo,corrId,custBatchNo,text,cliOrderId\n")
RESULT_HEADER = "updTime,resultType,custBatchNo,status,errorCode,errorMsg\n"


def update_line(order_id, status="1", filled=0, cancel=0, avg="0", amt="0", text="", qty=100):
    return "093000.000,%s,093000,UM0,10086,000001.SZ,1,%s,%s,10.0,AT,%s,%s,%s,%s,no1,c1,%s,%s,x1\n" % (
        datetime.date.today().strftime("%Y%m%d"), status, qty, filled, avg, amt, cancel, order_id, text)


def put(path, text, mode="w"):
    with open(path, mode, encoding="utf-8", newline="") as f:
        f.write(text)


def day(d=None):
    return (d or datetime.date.today()).strftime("%Y%m%d")
