"""Child side of the task scenarios: one start/list/stop request through the command line against a given process table."""
import io
import os
import re
import sys

import fakeps
import rt


def listed(text):
    """blocks of get_tasks' output"""
    out, cur = [], None
    for ln in text.splitlines():
        m = re.match(r"^(名称|pid|代码路径|日志路径|自定义环境变量|是否debug模式|cmd): ?(.*)$", ln)
        if not m:
            continue
        k, v = m.groups()
        if k == "名称":
            cur = {"name": v}
            out.append(cur)
        elif cur is not None and k not in cur:
            cur[k] = v
    return [{"pid": int(b["pid"]) if b.get("pid", "").isdigit() else -1, "name": b.get("name", ""), "code": b.get("代码路径", ""), "out": b.get("日志路径", ""),
             "env": b.get("自定义环境变量", ""), "debug": b.get("是否debug模式", "")} for b in out]


def main(job, d):
    rt.open_trace(d)
    rt.start_clock(2024, 3, 5)
    rt.L.vt_enable(rt.at(34000))
    rt.L.vt_set_end(rt.at(86400 * 3))
    sys.modules["c_tasks"] = sys.modules[__name__]
    fakeps.load(job["procs"], job["events"], job["me"], job["parent"], lambda e, s: rt.emit(e="sig", id=e.get("id", -1), pid=e["pid"], sig=s))
    fakeps.contain()
    with open(os.path.join(d, "s.py"), "w") as f:
        f.write("import c_tasks, os\n\n\ndef process_initialize(context):\n    c_tasks.rt.emit(e='accepted', n=c_tasks.fakeps.COUNT)\n    os._exit(0)\n")
    buf = io.StringIO()
    err = None
    out, sys.stdout = sys.stdout, buf
    try:
        rt.cli(*job["argv"])
    except SystemExit as e:
        err = f"exit {e.code}" if e.code not in (0, None) else None
    except BaseException as e:
        err = f"{type(e).__name__}: {e}"
    finally:
        sys.stdout = out
    rt.emit(e="end", err=err, n=fakeps.COUNT, shown=listed(buf.getvalue()) if job["op"] == "list" else [])
    return 0
