"""Runtime used inside forked children: virtual time, trace, neutral stand-ins."""
import ctypes
import datetime
import json
import os
import sys

import fakeps

L = ctypes.CDLL(None)
LL = ctypes.c_longlong
L.vt_enable.argtypes = [LL]
L.vt_now.restype = LL
L.vt_set.argtypes = [LL]
L.vt_advance.argtypes = [LL]
L.vt_set_end.argtypes = [LL]
L.vt_signal_at.argtypes = [LL, ctypes.c_int]
L.vt_fs_count.argtypes = [ctypes.c_char_p]
L.vt_fs_crash.argtypes = L.vt_fs_full.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
L.vt_fs_sched.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
L.vt_jump_at_read.argtypes = [ctypes.c_int, LL]
L.vt_fs_op.restype = ctypes.c_char_p

_fd = None
BASE = 0          # epoch seconds of midnight of the start day


def open_trace(d):
    global _fd
    _fd = os.open(os.path.join(d, "trace.jsonl"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)


def emit(**k):
    os.write(_fd, (json.dumps(k, ensure_ascii=False, default=str) + "\n").encode())


def start_clock(y, mo, d, h=0, mi=0, s=0, ms=0):
    global BASE
    BASE = int(datetime.datetime(y, mo, d).timestamp())
    L.vt_enable((BASE + h * 3600 + mi * 60 + s) * 10**9 + ms * 10**6)


def now():
    ns = L.vt_now()
    return ns // 10**9 - BASE, ns // 10**6 % 1000


def at(sec, ms=0):
    """virtual instant (relative to the base day) in ns"""
    return (BASE + sec) * 10**9 + ms * 10**6


def advance_ms(ms):
    if ms:
        L.vt_advance(int(ms) * 10**6)


def rel(dt):
    """datetime -> (sec, ms) relative to the base day"""
    if dt is None:
        return -999999999, 0
    us = round(dt.timestamp() * 10**6)
    return us // 10**6 - BASE, us // 1000 % 1000


def fake_psutil():
    """an empty process table (lib/fakeps.py stands in for psutil since the fork server started)"""
    fakeps.load()


def cli(*args):
    import jqtrade.__main__ as M
    sys.argv = ["jqtrade"] + list(args)
    return M.main()
