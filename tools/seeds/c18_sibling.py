PROPERTY = "C18"
EDITS = [("jqtrade/scheduler/runner.py", """        if _task.pid in (current_pid, parent_pid):
""", """        if _task.pid in (current_pid, parent_pid) or _task.ppid() == parent_pid:
""")]
NEEDS = "two strategies of the same name launched by one and the same process, such as a launch script or a supervisor"
BREAKS = "the second one starts beside the first although the name is taken"
# --- demo
code = '''
def process_initialize(context):
    set_options(use_account=False)
    run_daily(job, "00:00:00")
    print("up", file=open("up", "w"))

def job(context):
    pass
'''
name = "demo twin %d" % os.getpid()
a = start(code, name=name)
time.sleep(4)
check(a.poll() is None, "the first did not start")
b = start(code, name=name)
rc, out = finish(b, after=4, limit=10)
a.terminate()
rc_a, out_a = finish(a, limit=10)
if rc_a is None:
    a.kill()
check(rc not in (0, None) and name in out, "a second task named %r started: exit code %s\n%s" % (name, rc, out))
other = start(code, name=name + " b")
rc, out = finish(other, after=4, limit=10)
check(rc == 0, "a task whose name is free did not run: %s\n%s" % (rc, out))
