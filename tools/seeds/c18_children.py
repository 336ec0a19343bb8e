PROPERTY = "C18"
EDITS = [("jqtrade/__main__.py", """    if options.all:
        for _p in active_tasks:
            _kill""", """    if options.all:
        # 避免停止后残留子进程
        for _p in active_tasks + [_c for _t in active_tasks for _c in _t.children(recursive=True)]:
            _kill""")]
NEEDS = "stop_task --all --force while a strategy has started another program (a data recorder, say)"
BREAKS = "processes that are no task are killed as well"
# --- demo
import types as _types
sent = []


class Proc(object):
    def __init__(self, pid, ppid, cmd, kids=()):
        self.pid, self._ppid, self._cmd, self._kids = pid, ppid, cmd, list(kids)
        self.info = {"pid": pid, "ppid": ppid, "cmdline": cmd, "name": cmd[0]}

    def cmdline(self):
        return list(self._cmd)

    def ppid(self):
        return self._ppid

    def name(self):
        return self._cmd[0]

    def children(self, recursive=False):
        return list(self._kids)

    def is_running(self):
        return True

    def status(self):
        return "sleeping"

    def send_signal(self, sig):
        sent.append((self.pid, int(sig)))

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)


rec = Proc(9000003, 9000002, ["recorder", "--out", "x"])
task = Proc(9000002, 9000001, ["python", "-m", "jqtrade", "start_task", "-n", "demo", "-c", "s.py"], [rec])
table = [Proc(9000001, 1, ["bash"], [task]), task, rec]
m = _types.ModuleType("psutil")
m.Error = type("Error", (Exception,), {})
m.NoSuchProcess = type("NoSuchProcess", (m.Error,), {})
m.ZombieProcess = type("ZombieProcess", (m.NoSuchProcess,), {})
m.AccessDenied = type("AccessDenied", (m.Error,), {})
m.process_iter = lambda *a, **k: iter(table)
m.pids = lambda: [p.pid for p in table]
m.Process = lambda pid=None: [p for p in table if p.pid == pid][0]
sys.modules["psutil"] = m
import jqtrade.__main__ as main_mod
os.kill = lambda pid, sig: sent.append((pid, int(sig)))
sys.argv = ["jqtrade", "stop_task", "--all", "--force"]
main_mod.main()
check(sent == [(9000002, 9)], "signals sent: %s" % sent)
