PROPERTY = "C02"
EDITS = [("jqtrade/scheduler/loop.py", "            if message.time > now:\n", "            if message.time - now > 500:\n")]
NEEDS = "a message that is less than half a second away when the loop looks at the queue, for example after a task that ends just before the next one is due"
BREAKS = "a task that is due within half a second is run at once, before its time"
# --- demo
t = soon(4)
u = t + datetime.timedelta(seconds=1)
code = '''
import time, datetime
def first(context):
    d = datetime.datetime.now()
    time.sleep(max(0, 0.7 - d.microsecond / 1e6))
def second(context):
    print("RAN at %%s" %% datetime.datetime.now().strftime("%%H%%M%%S"))

def process_initialize(context):
    set_options(use_account=False)
    run_daily(first, "%s")
    run_daily(second, "%s")
''' % (t.strftime("%H:%M:%S"), u.strftime("%H:%M:%S"))
rc, out = finish(start(code), after=8)
check(rc == 0 and "RAN at" in out, "exit code %s\n%s" % (rc, out))
check("RAN at " + u.strftime("%H%M%S") in out, "the task due at %s ran too early\n%s" % (u, out))
