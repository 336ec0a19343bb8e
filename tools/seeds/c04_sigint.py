PROPERTY = "C04"
EDITS = [("jqtrade/scheduler/loop.py", """        # ctrl c
        self.register_signal_callback(signal.SIGINT, self.handle_signal)
""", """        # ctrl c
        signal.signal(signal.SIGINT, lambda sig, frame: self.handle_signal(sig))
""")]
NEEDS = "Ctrl-C while the process is idle, waiting for its next task"
BREAKS = "an idle process does not notice Ctrl-C until its next task wakes the loop"
# --- demo
code = '''
def job(context):
    pass

def process_initialize(context):
    set_options(use_account=False)
    run_daily(job, "00:00:00")
'''
import time as _t
soon(1)
t0 = _t.time()
rc, out = finish(start(code), after=4, sig=signal.SIGINT, limit=8)
check(rc == 0, "Ctrl-C did not end the idle process normally: exit code %s\n%s" % (rc, out))
