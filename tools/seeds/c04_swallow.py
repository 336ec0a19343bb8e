PROPERTY = "C04"
EDITS = [("jqtrade/scheduler/strategy.py", """        def _callback(event):
            return callback(self._user_ctx)
        return _callback""", """        def _callback(event):
            try:
                return callback(self._user_ctx)
            except InvalidParam as e:
                logger.error(f"任务执行失败：{callback.__name__}, error={e}")
        return _callback""")]
NEEDS = "a task that raises an error of the framework's own kind, for example by ordering a malformed code"
BREAKS = "the failing task does not end the process; later tasks run"
# --- demo
t = soon(4)
code = '''
import datetime
def bad(context):
    order("600000", 100)

def later(context):
    print("LATER RAN")

def process_initialize(context):
    set_options(use_account=False)
    run_daily(bad, "%s")
    run_daily(later, "%s")
''' % (t.strftime("%H:%M:%S"), (t + datetime.timedelta(seconds=2)).strftime("%H:%M:%S"))
rc, out = finish(start(code), after=10)
check(rc not in (0, None) and "LATER RAN" not in out, "the failing task did not end the process: exit code %s\n%s" % (rc, out))
