PROPERTY = "C13"
EDITS = [("jqtrade/account/trade_gate.py", """            with open(file, mode, encoding=self._file_coding) as fp:
""", """            with open(file, mode if os.path.exists(file) else "w+", encoding=self._file_coding) as fp:
""")]
NEEDS = "two strategies submitting the day's first orders: one creates the file between the other's existence test and its opening"
BREAKS = "the second writer empties the file, and the first writer's accepted order is lost"
# --- demo
import builtins

a, files, run = dma()
b, _, _ = dma(files=files)
orders = [getattr(a, "_order_csv")]
real = builtins.open
done = []


def racing(path, *args, **kw):
    if path == orders[0] and not done:
        done.append(1)
        a.order(sys_order("1"))
    return real(path, *args, **kw)


builtins.open = racing
try:
    b.order(sys_order("2"))
finally:
    builtins.open = real
ids = [x.split(",")[1] for x in real(orders[0]).read().splitlines()[1:]]
check(sorted(ids) == ["1", "2"], "the file holds the orders %s" % ids)
