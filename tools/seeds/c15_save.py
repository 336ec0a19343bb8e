PROPERTY = "C15"
EDITS = [("jqtrade/account/trade_gate.py", """        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
        shutil.move(tmp_file, self._data_file)
""", """        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
            shutil.move(tmp_file, self._data_file)
""")]
NEEDS = "the process dies between the move of the saved data and the end of its write"
BREAKS = "the order data has not reached the file when it replaces the old one, so that a crash at that point leaves an unreadable file and loses every order of the day"
# --- demo
import json
import shutil as sh
gate, files, run = dma()
gate.order(sys_order("1"))
data = [os.path.join(b, f) for b, _, fs in os.walk(run) for f in fs]
check(len(data) == 1, "data files %s" % data)


def dies_right_after(real):
    def f(*a):
        real(*a)
        os._exit(9)
    return f


pid = os.fork()
if pid == 0:
    for mod, name in ((sh, "move"), (os, "rename"), (os, "replace")):
        setattr(mod, name, dies_right_after(getattr(mod, name)))
    try:
        gate.order(sys_order("2"))
    finally:
        os._exit(0)
os.waitpid(pid, 0)
gate2, _, _ = dma(files=files, run=run)
put(os.path.join(files, "orderUpdate_%s.csv" % day()), UPDATE_HEADER)
put(os.path.join(files, "execResult_%s.csv" % day()), RESULT_HEADER)
got = {str(o["order_id"]) for o in gate2.sync_orders()}
check("1" in got, "after the crash the restarted process knows %s" % got)
