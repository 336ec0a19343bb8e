"""Driver (child side) for retried operations."""
import rt
from jqtrade.common.utils import simple_retry


class Eligible(Exception):
    pass


class Ineligible(Exception):
    pass


class Sub(Eligible):
    pass


class Base(BaseException):
    pass


def ms():
    s, m = rt.now()
    return s * 1000 + m


def run(case):
    script = list(case["script"])
    pos = [0]
    objs = {}
    keep = []

    def ident(o):
        for k, x in objs.items():
            if x is o:
                return k
        return -1

    def op(*args, **kw):
        rt.emit(e="try", w=ms(), args=args == ARGS and kw == KW)
        rt.advance_ms(case["spend"])
        while True:
            k = script[pos[0]] if pos[0] < len(script) else "ok"
            pos[0] += 1
            if k != "nest":
                break
            try:
                call()
            except (Exception, Base, SystemExit, KeyboardInterrupt):
                pass
        v = pos[0]
        if k == "ok":
            o = case["values"][v % len(case["values"])]
            o = [o] if case["box"] else o
        elif k == "elig":
            o = (Sub if v % 3 == 0 and case["pred"] else Eligible if case["pred"] else (ValueError, Eligible, KeyError, OSError)[v % 4])(f"f{v}")
        elif k == "inel":
            o = (Ineligible if v % 2 else RuntimeError)(f"f{v}")
        else:
            o = (Base, KeyboardInterrupt)[v % 2](f"f{v}") if v % 5 else SystemExit(3)
        keep.append(o)
        objs[v] = o
        rt.emit(e="out", k=k, v=v, w=ms())
        if k == "ok":
            return o
        raise o
    kw = {}
    if case["pred"]:
        kw["on_exception"] = (lambda e: isinstance(e, Eligible)) if case["truth"] == 0 else (lambda e: [1] if isinstance(e, Eligible) else None)
    if case["max"] != 3 or not case["defaults"]:
        kw["max_attempts"] = case["max"]
    if not case["defaults"]:
        kw["attempt_internal"] = case["pause"] / 1000
    if case["how"] == "method":
        class K:
            def meth(self, *args, **kw):
                return op(*args, **kw)
        K.meth = simple_retry(**kw)(K.meth)
        wrapped = K().meth
    else:
        wrapped = simple_retry(**kw)(op)
    ARGS, KW = ((), {}) if case["args"] == 0 else ((1, "x", None), {"a": 2, "on_exception": 3})

    def call():
        rt.emit(e="call", w=ms())
        try:
            o = wrapped(*ARGS, **KW)
        except BaseException as x:
            rt.emit(e="ret", how="raise", v=ident(x), w=ms())
            raise
        if case["box"]:
            v = ident(o)
        else:
            v = pos[0] if any(o is x for x in [objs.get(pos[0])]) else -1
        rt.emit(e="ret", how="value", v=v, w=ms())
        return o
    while pos[0] < len(script):
        try:
            call()
        except BaseException as x:
            if not isinstance(x, (Exception, Base, KeyboardInterrupt, SystemExit)):
                raise
    rt.emit(e="done")


def main(job, d):
    rt.open_trace(d)
    rt.start_clock(2031, 5, 6, 10, 0, 0)
    rt.L.vt_set_end(rt.at(900 * 86400))
    for case in job["cases"]:
        rt.emit(e="case")
        run(case)
    # misuse: a predicate that cannot be called is refused at once
    try:
        simple_retry(on_exception=5)
        rt.emit(e="misuse", ok=False)
    except ValueError:
        rt.emit(e="misuse", ok=True)
    return 0
