PROPERTY = "C01"
EDITS = [("jqtrade/scheduler/strategy.py", """_cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}\"""", """_cls_name = f"Scheduler_{_desc['name']}_{_desc['time']}\"""")]
NEEDS = "two functions of the same name (closures of a factory, lambdas, functions of two modules) registered for the same time"
BREAKS = "the two tasks share one event class, so that each of them runs twice at each occurrence"
# --- demo
t = soon(4)
code = '''
import datetime
def make(tag):
    def job(context):
        print("RAN " + tag)
    return job

def process_initialize(context):
    set_options(use_account=False)
    run_daily(make("one"), "%s")
    run_daily(make("two"), "%s")
''' % (t.strftime("%H:%M:%S"), t.strftime("%H:%M:%S"))
rc, out = finish(start(code), after=7)
check(rc == 0, "exit code %s\n%s" % (rc, out))
for tag in ("one", "two"):
    check(out.count("RAN " + tag) == 1, "task %s ran %d times\n%s" % (tag, out.count("RAN " + tag), out))
