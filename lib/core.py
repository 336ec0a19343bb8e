"""Shared machinery of the checks: scratch space, shim build, fork-server pool, TLC runner, evidence, verdicts."""
import hashlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JQ_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


PORTION = 12_000_000      # characters of JSON one TLC run is given


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else (os.environ.get("VERIF_SEED") or 1))
        self.rng = random.Random(f"{self.seed}/{prop}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"jqv-{prop}-", dir="/tmp")
        self.cov = {}
        self.samples = []
        self.violations = []          # dicts: prop, key, what, replay(data)
        self.assumptions = []
        self._pool = None
        self._shim = None
        self.tlc_states = 0
        self.tlc_transitions = 0
        self.traces = 0
        self.tlc_runs = []
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # ---------------------------------------------------------------- scratch
    def dir(self, name="d"):
        self._n += 1
        p = os.path.join(self.scratch, f"{name}{self._n}")
        os.makedirs(p)
        return p

    def close(self):
        if self._pool:
            self._pool.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- shim
    @property
    def shim(self):
        if not self._shim:
            so = os.path.join(self.scratch, "libvt.so")
            r = subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "shim/vt.c"), "-ldl"],
                               capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("shim does not build: " + r.stderr)
            self._shim = so
        return self._shim

    # ---------------------------------------------------------------- jobs in forked children
    @property
    def pool(self):
        if not self._pool:
            self._pool = Pool(self, int(os.environ.get("JQ_JOBS", "8")))
        return self._pool

    def jobs(self, module, jobs, timeout=60):
        """run job dicts (each gets its own directory); returns list of results in order"""
        return self.pool.map(module, jobs, timeout)

    # ---------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, extra=(), data=None, timeout=600, workers=8, simulate=None, heap="4g", defs=""):
        """run TLC in a scratch copy of the specs; returns (output lines, printed JSON values)"""
        d = self.dir("tlc")
        for f in os.listdir(os.path.join(VERIF, "specs")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "specs", f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        for name, val in (data or {}).items():
            with open(os.path.join(d, name), "w") as f:
                json.dump(val, f)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", "M.cfg", "-noTE"]
        if simulate:
            num, depth, seed = simulate
            cmd += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
        cmd += list(extra) + [spec + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout * (3 if self.thorough else 1))
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {spec}")
        out = r.stdout
        vals, plain = [], []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    vals.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            plain.append(line)
        st = [ln for ln in plain if "states generated" in ln]
        gen = dist = 0
        if st:
            w = st[-1].replace(",", "").split()
            for i, x in enumerate(w):
                if x == "states" and i and w[i - 1].isdigit() and w[i + 1].startswith("generated"):
                    gen = int(w[i - 1])
                if x == "distinct" and i and w[i - 1].isdigit():
                    dist = int(w[i - 1])
        self.tlc_runs.append({"spec": spec, "generated": gen, "distinct": dist, "wall_s": round(time.time() - t, 2), "rc": r.returncode})
        self.tlc_transitions += gen
        self.tlc_states += dist
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r.returncode, plain, vals, r.stderr

    def tlc_ok(self, spec, cfg, **kw):
        traces = (kw.get("data") or {}).get("traces.json")
        if isinstance(traces, list) and len(traces) > 1:      # judged in portions that TLC's heap holds (every trace is judged on its own)
            parts, size = [[]], 0
            for t in traces:
                n = len(json.dumps(t))
                if parts[-1] and size + n > PORTION:
                    parts.append([])
                    size = 0
                parts[-1].append(t)
                size += n
            if len(parts) > 1:
                plain, vals = [], []
                for part in parts:
                    a, b = self.tlc_ok(spec, cfg, **dict(kw, data=dict(kw["data"], **{"traces.json": part})))
                    plain += a
                    vals += b
                return plain, vals
        rc, plain, vals, err = self.tlc(spec, cfg, **kw)
        if rc in (10, 75, 76) and isinstance(traces, list) and all("id" in t for t in traces):
            # a recorded value of a kind the specification does not know (none instead of a number ...): find the traces with one
            return plain, self.odd_values(spec, cfg, kw, traces)
        if rc != 0:
            raise MachineryError(f"TLC failed on {spec} (rc={rc}):\n" + "\n".join(plain[-60:]) + err[-2000:])
        return plain, vals

    def odd_values(self, spec, cfg, kw, traces):
        vals, todo, found = [], [traces], 0
        while todo:
            part = todo.pop()
            if found >= 3:
                vals += [{"id": t["id"], "at": 1, "n": 1, "errs": []} for t in part]
                continue
            rc, _, got, _ = self.tlc(spec, cfg, **dict(kw, data=dict(kw["data"], **{"traces.json": part})))
            if rc == 0:
                vals += got
            elif rc in (10, 75, 76) and len(part) == 1:
                found += 1
                vals.append({"id": part[0]["id"], "at": 1, "n": 1, "errs": [self.prop + ":value_of_another_kind"]})
            elif rc in (10, 75, 76):
                todo += [part[len(part) // 2:], part[:len(part) // 2]]
            else:
                raise MachineryError(f"TLC failed on {spec} (rc={rc})")
        return vals

    # ---------------------------------------------------------------- verdicts
    def violate(self, props, key, what, replay=None):
        for p in ([props] if isinstance(props, str) else props):
            self.violations.append({"property": p, "key": key, "what": what, "replay": replay})


class Pool:
    """fork servers: each has the code under test imported, and forks one child per job"""

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.n = n
        self.servers = []
        self.hung = []
        home = ctx.dir("home")
        env = {"PATH": "/usr/bin:/bin", "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "Asia/Shanghai",
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
               "LD_PRELOAD": ctx.shim, "PYTHONPATH": REPO, "JQ_LIB": os.path.join(VERIF, "lib")}
        for _ in range(n):
            p = subprocess.Popen([PY, os.path.join(VERIF, "lib/zygote.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=open(os.path.join(ctx.scratch, "zygote.err"), "a"), env=env, cwd=home, text=True)
            self.servers.append(p)

    def map(self, module, jobs, timeout):
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        res = [None] * len(jobs)
        errs, hung = [], self.hung

        def work(p):
            while not errs:
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                d = self.ctx.dir("job")
                # (where many jobs never end, the rest are cut short: that they hang is established)
                msg = {"module": module, "job": j, "dir": d, "timeout": timeout if len(hung) < 16 else min(timeout, 20 if len(hung) < 32 else 5 if len(hung) < 64 else 1.5)}
                try:
                    p.stdin.write(json.dumps(msg) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError) as e:
                    line = ""
                if not line:
                    errs.append("fork server died: " + open(os.path.join(self.ctx.scratch, "zygote.err")).read()[-3000:])
                    return
                r = json.loads(line)
                if r.get("timeout"):
                    hung.append(i)
                trace = []
                tp = os.path.join(d, "trace.jsonl")
                if os.path.exists(tp):
                    with open(tp, errors="replace") as f:
                        for ln in f:
                            try:
                                trace.append(json.loads(ln))
                            except ValueError:
                                pass
                r["trace"] = trace
                r["dir"] = d
                for k in ("stdout", "stderr"):
                    fp = os.path.join(d, k)
                    r[k] = open(fp, errors="replace").read()[-6000:] if os.path.exists(fp) else ""
                res[i] = r
                if not j.get("keep"):
                    shutil.rmtree(d, ignore_errors=True)

        ts = [threading.Thread(target=work, args=(p,)) for p in self.servers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise MachineryError(errs[0])
        return res

    def close(self):
        for p in self.servers:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.servers:
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill()


# -------------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def finish(ctx, level, level_cov, checks_done=True):
    """write evidence, print verdict lines, return exit code"""
    known = {(k["property"], k["key"]): k for k in known_findings()}
    mine = [v for v in ctx.violations if v["property"] == ctx.prop]
    seen, new, kf = set(), [], []
    for v in mine:
        if (v["property"], v["key"]) in known:
            if v["key"] not in seen:
                kf.append(v)
        else:
            new.append(v)
        seen.add(v["key"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(level_cov)
    cov.setdefault("samples", ctx.samples[:3] or ["none"])
    cov["tlc_runs"] = ctx.tlc_runs
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(ctx.elapsed(), 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write("\n")
    for v in kf:
        print(f"KNOWN-FINDING: property={ctx.prop} {known[(v['property'], v['key'])]['what']}")
    if new:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in new:
            if v["key"] in shown or len(shown) >= 5:
                continue
            shown.add(v["key"])
            h = hashlib.sha1((v["key"] + json.dumps(v["replay"], default=str)).encode()).hexdigest()[:10]
            path = os.path.join(rd, f"{ctx.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False, default=str)
            print(f"  {v['key']}: {v['what'][:600]}")
            print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    return 0
