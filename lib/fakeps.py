"""Stand-in for psutil: the process table is the harness's, signals are only recorded.

Installed as sys.modules["psutil"] in the fork server before the code under test is imported. Every access counts; planned changes of the
table (a process ends, its id is taken by another one, a new process appears) happen at chosen accesses.
"""
import collections
import os
import signal as _signal
import sys

STATUS_RUNNING, STATUS_SLEEPING, STATUS_ZOMBIE, STATUS_STOPPED, STATUS_DEAD = "running", "sleeping", "zombie", "stopped", "dead"
LINUX, WINDOWS, MACOS, POSIX = True, False, False, True
version_info = (7, 2, 2)
__version__ = "7.2.2"


class Error(Exception):
    def __init__(self, pid=None, name=None, msg=None):
        Exception.__init__(self, msg or f"{type(self).__name__} (pid={pid!r})")
        self.pid, self.name, self.msg = pid, name, msg


class NoSuchProcess(Error):
    pass


class ZombieProcess(NoSuchProcess):
    def __init__(self, pid=None, name=None, ppid=None, msg=None):
        NoSuchProcess.__init__(self, pid, name, msg)
        self.ppid = ppid


class AccessDenied(Error):
    pass


class TimeoutExpired(Error):
    def __init__(self, seconds=None, pid=None, name=None):
        Error.__init__(self, pid, name, f"timeout after {seconds} seconds")
        self.seconds = seconds


TABLE = {}          # pid -> entry (dict with pid, ppid, cmd, name, deny, sig, zombie, birth)
EVENTS = []         # [access number, kind, entry], sorted
COUNT = 0
BIRTH = 0
ME, PARENT = 5000000, 4999999
SINK = None         # called with (kind, fields) for every signal


def load(procs=(), events=(), me=None, parent=None, sink=None):
    global COUNT, EVENTS, ME, PARENT, SINK
    TABLE.clear()
    COUNT = 0
    for p in procs:
        appear(dict(p))
    EVENTS = sorted(([k, kind, dict(e)] for k, kind, e in events), key=lambda x: x[0])
    if me is not None:
        ME, PARENT = me, parent
    SINK = sink


def appear(e):
    global BIRTH
    BIRTH += 1
    e["birth"] = BIRTH
    TABLE[e["pid"]] = e


def _access():
    global COUNT
    COUNT += 1
    while EVENTS and EVENTS[0][0] <= COUNT:
        _, kind, e = EVENTS.pop(0)
        if kind == "end":
            TABLE.pop(e["pid"], None)
        else:                       # "new" (possibly with the id of one that ended)
            appear(e)


def _signal_to(e, sig):
    if SINK:
        SINK(e, int(sig))


class Process:
    def __init__(self, pid=None):
        _access()
        pid = ME if pid is None else pid
        if not isinstance(pid, int):
            raise TypeError(f"pid must be an integer (got {pid!r})")
        if pid not in TABLE:
            raise NoSuchProcess(pid)
        self._bind(TABLE[pid])

    def _bind(self, e):
        self.pid = e["pid"]
        self._birth = e["birth"]
        return self

    def __eq__(self, o):
        return isinstance(o, Process) and (self.pid, self._birth) == (o.pid, o._birth)

    def __hash__(self):
        return hash((self.pid, self._birth))

    def __repr__(self):
        return f"psutil.Process(pid={self.pid})"
    __str__ = __repr__

    def _e(self):
        _access()
        e = TABLE.get(self.pid)
        if e is None or e["birth"] != self._birth:
            raise NoSuchProcess(self.pid)
        return e

    def is_running(self):
        _access()
        e = TABLE.get(self.pid)
        return e is not None and e["birth"] == self._birth

    def cmdline(self):
        e = self._e()
        if e.get("zombie") == "raise":
            raise ZombieProcess(self.pid)
        if e.get("deny"):
            raise AccessDenied(self.pid)
        return [] if e.get("zombie") else list(e["cmd"])

    def name(self):
        return self._e()["name"]

    def exe(self):
        e = self._e()
        if e.get("zombie"):
            raise ZombieProcess(self.pid)
        if e.get("deny"):
            raise AccessDenied(self.pid)
        return e["cmd"][0] if e["cmd"] else ""

    def ppid(self):
        return self._e()["ppid"]

    def parent(self):
        p = self.ppid()
        return _at(p) if p in TABLE else None

    def parents(self):
        out, p = [], self.parent()
        while p is not None and p not in out:
            out.append(p)
            p = p.parent()
        return out

    def children(self, recursive=False):
        self._e()
        out = [_at(q) for q, e in sorted(TABLE.items()) if e["ppid"] == self.pid]
        if recursive:
            for c in list(out):
                out += c.children(True)
        return out

    def status(self):
        return STATUS_ZOMBIE if self._e().get("zombie") else STATUS_SLEEPING

    def create_time(self):
        self._e()
        return 1.7e9 + self._birth

    def username(self):
        return self._e().get("user", "user")

    def uids(self):
        self._e()
        return collections.namedtuple("puids", "real effective saved")(1000, 1000, 1000)

    def cwd(self):
        e = self._e()
        if e.get("deny"):
            raise AccessDenied(self.pid)
        return "/"

    def terminal(self):
        self._e()
        return None

    def environ(self):
        e = self._e()
        if e.get("deny"):
            raise AccessDenied(self.pid)
        return {}

    def num_threads(self):
        self._e()
        return 1

    def oneshot(self):
        import contextlib
        return contextlib.nullcontext()

    def as_dict(self, attrs=None, ad_value=None):
        out = {}
        for a in attrs if attrs is not None else ("pid", "ppid", "name", "cmdline", "exe", "status", "username", "create_time"):
            if a == "pid":
                out[a] = self.pid
                continue
            try:
                out[a] = getattr(self, a)()
            except AttributeError:
                raise ValueError(f"invalid attr name {a!r}")
            except (AccessDenied, ZombieProcess):
                out[a] = ad_value
        return out

    def send_signal(self, sig):
        e = self._e()
        if e.get("sig") == "denied":
            raise AccessDenied(self.pid)
        _signal_to(e, sig)

    def terminate(self):
        self.send_signal(_signal.SIGTERM)

    def kill(self):
        self.send_signal(_signal.SIGKILL)

    def suspend(self):
        self.send_signal(_signal.SIGSTOP)

    def resume(self):
        self.send_signal(_signal.SIGCONT)

    def wait(self, timeout=None):
        if not self.is_running():
            return None
        if timeout is None:
            TABLE.pop(self.pid, None)
            return None
        raise TimeoutExpired(timeout, self.pid)


def _at(pid):
    p = Process.__new__(Process)
    e = TABLE.get(pid)
    if e is None:
        raise NoSuchProcess(pid)
    return p._bind(e)


def pids():
    _access()
    return sorted(TABLE)


def pid_exists(pid):
    _access()
    return pid in TABLE


def process_iter(attrs=None, ad_value=None):
    for pid in pids():
        try:
            p = _at(pid)
            if attrs is not None:
                p.info = p.as_dict(attrs, ad_value)
        except NoSuchProcess:
            continue
        yield p


process_iter.cache_clear = lambda: None


def wait_procs(procs, timeout=None, callback=None):
    gone = [p for p in procs if not p.is_running()]
    for p in gone:
        if callback:
            callback(p)
    return gone, [p for p in procs if p not in gone]


def contain():
    """signals of this process to others are recorded, its own identity is that of the table"""
    real_kill, real_pid = os.kill, os.getpid()

    def kill(pid, sig):
        if pid in (real_pid, ME) and sig in (0,):
            return
        _access()
        e = TABLE.get(pid)
        if e is None:
            raise ProcessLookupError(3, "No such process")
        if sig == 0:
            return
        if e.get("sig") == "denied":
            raise PermissionError(1, "Operation not permitted")
        _signal_to(e, sig)

    def killpg(pg, sig):
        _signal_to({"pid": pg, "group": True}, sig)
    os.kill, os.killpg = kill, killpg
    os.getpid, os.getppid = (lambda: ME), (lambda: PARENT)


def install():
    sys.modules["psutil"] = sys.modules[__name__]
