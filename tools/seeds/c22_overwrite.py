PROPERTY = "C22"
EDITS = [("jqtrade/common/log.py", """    file_handler = logging.FileHandler(file)
""", """    # a fresh log for every start
    file_handler = logging.FileHandler(file, mode="w")
""")]
NEEDS = "a second start with the same log file, or a log file that another program writes to as well"
BREAKS = "what earlier runs and other programs have written is lost"
# --- demo
log = os.path.join(scratch(), "out.log")
code = '''
def process_initialize(context):
    set_options(use_account=False)
    log.info("run %s")
'''
for k in ("one", "two"):
    rc, out = finish(start(code % k, ["-o", log]), after=3, limit=10)
    check(rc == 0, "the strategy did not run: %s\n%s" % (rc, out))
text = open(log).read()
check("run two" in text, "not logged: %r" % text)
check("run one" in text, "the log of the first run is gone")
