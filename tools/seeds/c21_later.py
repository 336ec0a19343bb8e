PROPERTY = "C21"
EDITS = [("jqtrade/common/utils.py", """                    if on_exception and not on_exception(e):
                        raise

                    if attempts >= max_attempts:
                        raise
""", """                    if attempts >= max_attempts:
                        raise

                    if on_exception and not attempts and not on_exception(e):
                        raise
""")]
NEEDS = "a first failure that is eligible for retry, followed by one that is not"
BREAKS = "the operation is called again after a failure that is not eligible"
# --- demo
from jqtrade.common.utils import simple_retry
calls = []


def op():
    calls.append(1)
    if len(calls) == 1:
        raise OSError("busy")
    if len(calls) == 2:
        raise ValueError("broken")
    return 1


try:
    r = simple_retry(on_exception=lambda e: isinstance(e, OSError), max_attempts=5, attempt_internal=0)(op)()
except ValueError:
    r = "raised"
check(r == "raised" and len(calls) == 2, "the operation gave %s after %d calls" % (r, len(calls)))
