PROPERTY = "C22"
EDITS = [("jqtrade/scheduler/runner.py", """        if out_file:
            setup_file_logger(out_file, log_level)
        else:
            setup_logger(log_level)
""", """        if out_file:
            setup_file_logger(out_file)
        else:
            setup_logger(log_level)
""")]
NEEDS = "a start with both --debug and a log file, and a message logged at level DEBUG"
BREAKS = "the message is missing from the log file"
# --- demo
code = '''
def process_initialize(context):
    set_options(use_account=False)
    log.debug("fine detail")
    log.info("coarse")
'''
for args in ([], ["--debug"]):
    log = os.path.join(scratch(), "out.log")
    rc, out = finish(start(code, ["-o", log] + args), after=3, limit=10)
    check(rc == 0, "the strategy did not run: %s\n%s" % (rc, out))
    text = open(log).read()
    check("coarse" in text, "not logged: %r" % text)
    check(("fine detail" in text) == bool(args), "--debug %s: %r" % (bool(args), text))
