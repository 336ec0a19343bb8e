PROPERTY = "C19"
EDITS = [("jqtrade/scheduler/runner.py", """            for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
""", """            for _py_path in sorted(set(self._env["PYTHONPATH"].split(":")), reverse=True):
""")]
NEEDS = "a PYTHONPATH of two directories that are not in alphabetical order and hold modules of the same name"
BREAKS = "the directories are searched in alphabetical order instead of the given one"
# --- demo
d = scratch()
for p in ("a lib", "b lib"):
    os.mkdir(os.path.join(d, p))
    with open(os.path.join(d, p, "helper_module.py"), "w") as f:
        f.write("WHERE = %r\n" % p)
with open(os.path.join(d, "a lib", "only_a.py"), "w") as f:
    f.write("X = 1\n")
code = '''
import helper_module, only_a

def process_initialize(context):
    set_options(use_account=False)
    with open("where", "w") as f:
        f.write(helper_module.WHERE)
'''
for order in (("a lib", "b lib"), ("b lib", "a lib")):
    p = start(code, ["-e", "X=1;PYTHONPATH=" + ":".join(os.path.join(d, x) for x in order)])
    rc, out = finish(p, after=4, limit=10)
    check(rc == 0, "the strategy did not run: %s\n%s" % (rc, out))
    s = os.path.dirname([a for a in p.args if a.endswith("demostrategy.py")][0])
    got = open(os.path.join(s, "where")).read()
    check(got == order[0], "with PYTHONPATH %s the module was found in %s" % (":".join(order), got))
