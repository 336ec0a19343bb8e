PROPERTY = "C01"
EDITS = [("jqtrade/scheduler/strategy.py", """            _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
""", """            _cls_name = f"Scheduler_{_desc['name']}{self._schedule_count}"
""")]
NEEDS = "a dozen registrations, and two functions of which one's name is the other's followed by a digit (the twelfth registration of job and the second of job1)"
BREAKS = "the two tasks share one event class, so that each of them runs twice at each occurrence"
# --- demo
t = soon(5)
at = t.strftime("%H:%M:%S")
code = '''
def job(context):
    print("RAN job")

def job1(context):
    print("RAN job1")

def never(context):
    print("RAN never")

def process_initialize(context):
    set_options(use_account=False)
    other = "%s"
    run_daily(never, other)
    run_daily(job1, "%s")
    for k in range(9):
        run_daily(never, other)
    run_daily(job, "%s")
''' % ((t - datetime.timedelta(seconds=600)).strftime("%H:%M:%S") if t.hour or t.minute > 10 else "23:59:59", at, at)
rc, out = finish(start(code), after=8, limit=10)
check(rc == 0, "the strategy did not run: %s\n%s" % (rc, out))
check(out.count("RAN job1\n") == 1 and out.count("RAN job\n") == 1, "tasks did not run once each: job1 %d, job %d" % (out.count("RAN job1\n"), out.count("RAN job\n")))
