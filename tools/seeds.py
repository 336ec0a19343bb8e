#!/usr/bin/env python3
"""Write /verif/seeded/<id> from tools/seeds/<id>.py (EDITS, PROPERTY, NEEDS, BREAKS, and the demonstration behind the
line '# --- demo') and confirm each in a scratch copy: applies, tests pass, demo passes without and fails with it.

    tools/seeds.py build [ID...]      write and confirm
    tools/seeds.py catch [ID...]      run the check of the property against the patched copy (JQ_REPO)
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools/seeds")
D = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"

def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, timeout=timeout, env=env)

def ids():
    return sorted(f[:-3] for f in os.listdir(S) if f.endswith(".py") and f != "h.py")

def load(i):
    head, demo = open(os.path.join(S, i + ".py"), encoding="utf-8").read().split("# --- demo\n", 1)
    ns = {}
    exec(head, ns)
    return ns, demo

def original_only(repo, patch):
    """Every removed line must come from the original repository."""
    base = sh("git rev-list --max-parents=0 HEAD | tail -1", repo).stdout.strip()
    base = "b07129a"
    bad, cur, ln = [], None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1)); continue
        if cur is None or l.startswith("+++") or l.startswith("---"):
            continue
        if l.startswith("-"):
            b = sh(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", cur], repo).stdout
            if not b.startswith("^" + base[:7]):
                bad.append(b.strip())
        if not l.startswith("+"):
            ln += 1
    removed = [l for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not removed:
        bad.append("removes no line")
    return bad

def patched(i, ns):
    t = tempfile.mkdtemp(prefix="sd")
    r = os.path.join(t, "repo")
    sh(["cp", "-a", "/repo", r], "/")
    for f, old, new in ns["EDITS"]:
        p = os.path.join(r, f)
        s = open(p, encoding="utf-8", newline="").read()
        if s.count(old) != 1:
            shutil.rmtree(t)
            raise SystemExit("%s: %d matches in %s: %r" % (i, s.count(old), f, old))
        open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
    return t, r

def build(i):
    ns, demo = load(i)
    out = os.path.join(D, i)
    os.makedirs(out, exist_ok=True)
    t, r = patched(i, ns)
    try:
        patch = sh(["git", "diff"], r).stdout
        bad = original_only(r, patch)
        if bad:
            return "lines not of the original: %s" % bad
        open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(patch)
        open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(
            "# -*- coding: utf-8 -*-\nimport os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
            "from h import *\n\n" + demo)
        shutil.copy(os.path.join(S, "h.py"), os.path.join(out, "h.py"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: the guarantee holds; nonzero: it does not\nexec env PYTHONDONTWRITEBYTECODE=1 TZ=Asia/Shanghai LC_ALL=C.UTF-8 '
            '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
        a = sh(["git", "apply", "--check", os.path.join(out, "patch.diff")], "/repo")
        if a.returncode:
            return "does not apply: " + a.stdout
        a = sh(["bash", os.path.join(out, "demo.sh")], "/repo", 300)
        if a.returncode != 0:
            return "demo fails on the unchanged tree:\n" + a.stdout[-1500:]
        a = sh(["bash", os.path.join(out, "demo.sh")], r, 300)
        if a.returncode == 0:
            return "demo passes with the patch:\n" + a.stdout[-1500:]
        if "DEMO FAILED" not in a.stdout:
            print("  note, demo output:", a.stdout[-400:])
        tests = sh("export HOME=/root TZ=Asia/Shanghai PYTHONPATH=%s LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1; rc=0; for d in tests tests/account tests/scheduler; do "
                   "(cd $d && %s -m pytest -q -p no:cacheprovider --rootdir=%s $(find . -maxdepth 1 -name 'test_*.py')) || rc=1; done; exit $rc" % (r, PY, r), r)
        if tests.returncode:
            return "tests fail:\n" + tests.stdout[-1500:]
        return None
    finally:
        shutil.rmtree(t)

def catch(i, tier="quick"):
    ns, _ = load(i)
    t, r = patched(i, ns)
    try:
        a = sh(["./check", ns["PROPERTY"], "--tier", tier], V, 2000, dict(os.environ, JQ_REPO=r))
        hit = a.returncode == 1 and "VIOLATION property=%s" % ns["PROPERTY"] in a.stdout
        return hit, a.stdout[-600:]
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    cmd, which = sys.argv[1], sys.argv[2:] or ids()
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        try:
            if cmd == "build":
                e = build(i)
                print(i, "ok" if e is None else "REJECTED " + e, flush=True)
            else:
                hit, o = catch(i)
                print(i, load(i)[0]["PROPERTY"], "caught" if hit else "MISSED " + o, flush=True)
        except BaseException as e:
            print(i, "ERROR", e, flush=True)
    with ThreadPoolExecutor(6 if cmd == "build" else 2) as ex:
        list(ex.map(one, which))
