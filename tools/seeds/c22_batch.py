PROPERTY = "C22"
EDITS = [("jqtrade/common/log.py", """import sys
import logging
import datetime
""", """import sys
import logging
import logging.handlers
import datetime
"""), ("jqtrade/common/log.py", """    file_handler.setLevel(level)

    logging.getLogger().addHandler(file_handler)
""", """    file_handler.setLevel(level)

    # every minute of every task writes a few lines: write them in batches, errors at once
    logging.getLogger().addHandler(logging.handlers.MemoryHandler(20, logging.ERROR, file_handler))
""")]
NEEDS = "a start with a log file, and a process that is killed (or prints) soon after it has logged something"
BREAKS = "the last lines logged before the death are lost, and printed text overtakes logged lines"
# --- demo
log = os.path.join(scratch(), "out.log")
code = '''
import os

def process_initialize(context):
    set_options(use_account=False)
    log.info("order sent")
    print("and printed")
    os.kill(os.getpid(), 9)
'''
p = start(code, ["-o", log])
rc, out = finish(p, limit=10)
check(rc == -9, "the strategy did not run: %s\n%s" % (rc, out))
text = open(log).read()
check("order sent" in text and "and printed" in text, "lost: %r" % text)
check(text.index("order sent") < text.index("and printed"), "out of order: %r" % text)
