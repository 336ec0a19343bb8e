"""Child side of C22: lives of one strategy that logs and prints, killed and restarted, with its log file or standard output looked at afterwards."""
import io
import json
import logging
import os
import re
import signal
import sys
import threading

import rt

JOB = None
LIFE = None
D = None
G = None
TICKS = {}


class Boom(Exception):
    pass


def ms():
    s, m = rt.now()
    return s * 1000 + m


def body(c, i):
    """what is to be found: from the mark to the end mark"""
    return c["text"].replace("\\i", str(i))


def say(c, i):
    log, pr = G["log"], G["print"]
    mark, end = "<<%d|" % i, "|%d>>" % i
    if c["kind"] == "print":
        kw = {k: c[k] for k in ("sep", "end") if k in c}
        args = [mark] + c["args"] + [end]
        if c["to"]:
            with open(os.path.join(D, "named"), "a") as f:
                return pr(*args, file=f, **kw)
        return pr(*args, **kw)
    f = c["form"]
    m = {10: log.debug, 20: log.info, 30: log.warning, 40: log.error, 50: log.critical}.get(c["lvl"])
    if f == "unprintable":
        return log.info(mark + "%d" + end, "x")
    if m is None or f == "level":
        return log.log(c["lvl"], mark + "%s" + end, c["arg"])
    if f == "plain":
        return m(mark + c["arg"] + end)
    if f == "args":
        return m("%s%s%s", mark, c["arg"], end)
    if f == "two":
        return m(mark + "%s" + end + " %d", c["arg"], 7)
    if f == "object":
        return m(Text(mark + c["arg"] + end))
    if f == "trace":
        try:
            raise Boom("x")
        except Boom:
            return m(mark + "%s" + end, c["arg"], exc_info=True)


class Text:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def expected(c, i):
    mark, end = "<<%d|" % i, "|%d>>" % i
    if c["kind"] == "print":
        b = io.StringIO()
        print(*([mark] + c["args"] + [end]), file=b, **({"sep": c["sep"]} if "sep" in c else {}), end="")
        return b.getvalue()
    return mark + c["arg"] + end


def act(a):
    k = a["a"]
    if k == "say":
        c = a["c"]
        n = NEXT[0] = NEXT[0] + 1
        with open(os.path.join(D, "texts.jsonl"), "a") as f:
            f.write(json.dumps([n, expected(c, n)]) + "\n")
        rt.emit(e="say", i=n, kind=c["kind"], lvl=c.get("lvl", 0), to="elsewhere" if c.get("to") or c.get("form") == "unprintable" else "", t=ms())
        how = []

        def run():
            try:
                say(c, n)
                how.append("ok")
            except Exception as e:
                how.append("raise")
                rt.emit(e="err", err=f"{type(e).__name__}: {e}")
        if a.get("thread"):
            t = threading.Thread(target=run)
            t.start()
            t.join()
        else:
            run()
        rt.emit(e="ret", i=n, how=how[0], t=ms())
    elif k == "other":
        n = NEXT[0] = NEXT[0] + 1
        text = "<<%d|%s|%d>>" % (n, a["arg"], n)
        with open(os.path.join(D, "texts.jsonl"), "a") as f:
            f.write(json.dumps([n, text]) + "\n")
        fd = os.open(os.path.join(D, ".", "w", "logs", "x.log"), os.O_WRONLY | os.O_APPEND)      # (a name the shim does not watch)
        os.write(fd, (text + "\n").encode())
        os.close(fd)
        rt.emit(e="other", i=n, t=ms())
    elif k == "look":
        look()
    elif k == "ms":
        rt.advance_ms(a["ms"])
    elif k == "chdir":
        os.chdir(os.path.join(D, "elsewhere"))
    elif k == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    elif k == "raise":
        raise Boom("ends here")
    elif k == "term":
        os.kill(os.getpid(), signal.SIGTERM)


NEXT = [0]


def logfile():
    return os.path.join(D, "w", "logs", "x.log")


def content(q):
    """what a file holds, without the hole of a log file that was large before"""
    with open(q, "rb") as f:
        n, h = len(JOB["before"].encode()), JOB.get("hole", 0)
        if q != logfile() or not h or os.path.getsize(q) < n + h:
            return f.read()
        head = f.read(n)
        f.seek(n + h)
        return head + f.read()


def look():
    """keep what the places hold now; made sense of when the job is over"""
    k = len([x for x in os.listdir(D) if x.startswith("look")]) + 1
    with open(os.path.join(D, "look%d" % k), "w") as f:
        f.write(json.dumps({p: content(q).decode("utf-8", "replace") if os.path.exists(q) else "" for p, q in
                            (("log", logfile()), ("out", os.path.join(D, "w", "out.txt")))}))
    rt.emit(e="look", k=k)


def tick(j, context, g):
    global G
    G = g
    n = TICKS[j] = TICKS.get(j, 0) + 1
    acts = LIFE["ticks"][j]
    for a in acts[n - 1] if n <= len(acts) else []:
        act(a)


def init(context, g):
    global G
    G = g
    rt.emit(e="up")
    g["set_options"](use_account=False, runtime_dir=os.path.join(D, "rt"))
    for j, t in enumerate(LIFE["at"]):
        g["run_daily"](g[f"f{j}"], t)
    for a in LIFE["init"]:
        act(a)


def life(l):
    global LIFE
    LIFE = l
    sys.modules["c_output"] = sys.modules[__name__]
    os.chdir(os.path.join(D, "w"))
    fd = os.open(os.path.join(D, "w", "out.txt"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(fd, 1)
    os.close(fd)
    sys.stdout = open(1, "w", closefd=False)           # buffered in blocks, as for any output that is no terminal
    rt.fake_psutil()
    rt.start_clock(*JOB["day0"])
    rt.L.vt_enable(rt.at(l["start"]))
    rt.L.vt_set_end(rt.at(l["end"]))
    code = os.path.join(D, "strat.py")
    with open(code, "w") as f:
        f.write("import c_output\n\n\ndef process_initialize(context):\n    c_output.init(context, globals())\n")
        for j in range(len(l["at"])):
            f.write(f"\n\ndef f{j}(context):\n    c_output.tick({j}, context, globals())\n")
    args = ["start_task", "-n", "vtask", "-c", code]
    if l["log"]:
        args += ["-o", l["log"].replace("{d}", D)]
    if l["debug"]:
        args.append("--debug")
    if l.get("crash"):
        rt.L.vt_fs_crash(os.path.join(D, "w", "logs").encode() if not l["log"].startswith("logs") else b"", *l["crash"])
    try:
        rt.cli(*args)
    except BaseException as e:
        rt.emit(e="ended", err=f"{type(e).__name__}: {e}")
    sys.stdout.flush()


FOUND = re.compile(r"<<(\d+)\|")
HEAD = re.compile(r"\[(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)\.(\d+)\] \[([A-Za-z0-9 ]+)\] \[(\d+)\] \[([\w.]+)\] $")
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def read(text, texts, pids):
    import datetime
    out = []
    for m in FOUND.finditer(text):
        i = int(m.group(1))
        whole = i in texts and text.startswith(texts[i], m.start())
        h = HEAD.search(text, max(0, m.start() - 90), m.start())
        lvl, t, pid = 0, -1, False
        if h:
            g = h.groups()
            lvl = LEVELS.get(g[7]) or int(g[7].replace("Level ", "") if g[7].replace("Level ", "").isdigit() else 1)
            t = round((datetime.datetime(*map(int, g[:6])).timestamp() - rt.BASE) * 1000) + int((g[6] + "000")[:3])
            pid = int(g[8]) == pids.get(i)
        out.append({"i": i, "whole": whole, "lvl": lvl, "t": t, "pid": pid})
    return out


def main(job, d):
    global JOB, D
    JOB, D = job, d
    rt.open_trace(d)
    for p in ("w/logs", "elsewhere", "rt"):
        os.makedirs(os.path.join(d, p))
    if job["before"]:
        with open(logfile(), "w") as f:
            f.write(job["before"])
        if job.get("hole"):
            os.truncate(logfile(), len(job["before"].encode()) + job["hole"])
            with open(logfile(), "a") as f:
                f.write("\n")
        NEXT[0] = 1
        with open(os.path.join(D, "texts.jsonl"), "a") as f:
            f.write(json.dumps([1, job["before"].rstrip("\n")]) + "\n")
        rt.emit(e="other", i=1, t=0)
    lives = []
    for l in job["lives"]:
        rt.emit(e="start", log=bool(l["log"]), debug=l["debug"])
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                life(l)
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(99)
        _, st = os.waitpid(pid, 0)
        lives.append((NEXT[0], pid))
        # the numbers the life has used
        if os.path.exists(os.path.join(D, "texts.jsonl")):
            NEXT[0] = max(NEXT[0], sum(1 for _ in open(os.path.join(D, "texts.jsonl"))))
        rt.emit(e="dead", code=-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))
        look()
    texts = dict(json.loads(x) for x in open(os.path.join(D, "texts.jsonl"))) if os.path.exists(os.path.join(D, "texts.jsonl")) else {}
    pids = {}
    for (a, pid), b in zip(lives, [x[0] for x in lives[1:]] + [10**9]):
        for i in texts:
            if a < i <= b:
                pids[i] = pid
    rt.start_clock(*JOB["day0"])
    for k in range(1, len([x for x in os.listdir(D) if x.startswith("look")]) + 1):
        h = json.load(open(os.path.join(D, "look%d" % k)))
        rt.emit(e="looked", k=k, **{p: read(h[p], texts, pids) for p in h})
    return 0
