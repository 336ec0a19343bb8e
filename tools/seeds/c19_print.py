PROPERTY = "C19"
EDITS = [("jqtrade/scheduler/api.py", """    if ctx.out and "file" not in kwargs:
        with open(ctx.out, "a") as wf:
""", """    if ctx.out and not hasattr(kwargs.get("file"), "name"):
        with open(ctx.out, "a") as wf:
""")]
NEEDS = "a start with a log file and a print call whose file is an object without a name attribute, such as a StringIO"
BREAKS = "the text goes to the log file although the call names a file"
# --- demo
import io
code = '''
import io

def process_initialize(context):
    set_options(use_account=False)
    buf = io.StringIO()
    print("table row", file=buf)
    with open("rows", "a") as f:
        print("plain row", file=f)
    print("logged row")
    with open("buf", "w") as f:
        f.write(buf.getvalue())
'''
log = os.path.join(scratch(), "out.log")
p = start(code, ["-o", log])
rc, out = finish(p, after=4, limit=10)
d = os.path.dirname([a for a in p.args if a.endswith("demostrategy.py")][0])
check(rc == 0, "the strategy did not run: %s\n%s" % (rc, out))
text = open(log).read()
check("logged row" in text and "plain row" not in text, "log file: " + text)
check(open(os.path.join(d, "rows")).read() == "plain row\n", "named file")
check(open(os.path.join(d, "buf")).read() == "table row\n", "the text for the buffer went elsewhere: %r; log: %s" % (open(os.path.join(d, "buf")).read(), text))
