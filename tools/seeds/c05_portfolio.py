PROPERTY = "C05"
EDITS = [("jqtrade/scheduler/context.py", """    @property
    def portfolio(self):
        if not self._use_account:
            raise InvalidCall(""", """    @property
    def portfolio(self):
        if self._use_account is False:
            raise InvalidCall(""")]
NEEDS = "a strategy that never calls set_options, so that account support was neither turned on nor off"
BREAKS = "the portfolio is handed out as None instead of being refused with an error"
# --- demo
t = soon(4)
code = '''
def job(context):
    try:
        p = context.portfolio
        print("GOT %%r" %% (p,))
    except Exception as e:
        print("REFUSED " + type(e).__name__)

def process_initialize(context):
    run_daily(job, "%s")
''' % t.strftime("%H:%M:%S")
rc, out = finish(start(code), after=7)
check("REFUSED" in out, "portfolio access without account support is not refused\n" + out)
