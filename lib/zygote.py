"""Fork server: imports the code under test once; forks one child per job read from stdin."""
import json
import os
import signal
import sys
import time

sys.path.insert(0, os.environ["JQ_LIB"])
import importlib

import fakeps
fakeps.install()

import pandas  # noqa
import pyuv  # noqa
import portalocker  # noqa
import jqtrade.scheduler.runner  # noqa
import jqtrade.account.account  # noqa
import jqtrade.account.portfolio  # noqa
import jqtrade.account.trade_gate  # noqa
import jqtrade.__main__  # noqa

os.environ.pop("LD_PRELOAD", None)


def child(msg):
    os.setsid()
    d = msg["dir"]
    os.chdir(d)
    nul = os.open("/dev/null", os.O_RDONLY)
    os.dup2(nul, 0)
    for fd, name in ((1, "stdout"), (2, "stderr")):
        f = os.open(os.path.join(d, name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
    sys.stdout = open(1, "w", buffering=1, closefd=False)
    sys.stderr = open(2, "w", buffering=1, closefd=False)
    code = 99
    try:
        m = importlib.import_module(msg["module"])
        code = m.main(msg["job"], d) or 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 1
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 99
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def main():
    out = sys.stdout
    for line in sys.stdin:
        msg = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                child(msg)
            finally:
                os._exit(99)
        deadline = time.time() + msg["timeout"]
        timed_out = False
        pause = 0.001
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > deadline and not timed_out:
                timed_out = True
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(pause)
            pause = min(pause * 1.3, 0.02)
        try:
            os.killpg(pid, signal.SIGKILL)       # stragglers of this job only
        except OSError:
            pass
        r = {"timeout": timed_out}
        if os.WIFSIGNALED(st):
            r["code"] = -os.WTERMSIG(st)
        else:
            r["code"] = os.WEXITSTATUS(st)
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
