PROPERTY = "C21"
EDITS = [("jqtrade/common/utils.py", """        def _retry(*args, **kwargs):
            attempts = 0
            while True:
""", """        attempts = 0

        def _retry(*args, **kwargs):
            nonlocal attempts
            while True:
""")]
NEEDS = "several calls of one retried operation with failures in more than one of them"
BREAKS = "the failures of earlier calls are counted, so that later calls get fewer retries, in the end none"
# --- demo
from jqtrade.common.utils import simple_retry
calls = []


@simple_retry(max_attempts=3, attempt_internal=0.001)
def op(fails):
    calls.append(1)
    if len(calls) <= fails:
        raise OSError("not yet")
    return "value"


for rnd in range(4):
    del calls[:]
    try:
        r = op(2)
    except OSError:
        check(False, "call %d: given up after %d attempts of 4" % (rnd + 1, len(calls)))
    check(r == "value" and len(calls) == 3, "call %d: %s after %d attempts" % (rnd + 1, r, len(calls)))
