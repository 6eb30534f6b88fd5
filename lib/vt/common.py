"""Shared machinery: paths, builds, worker pool, verdicts, evidence, replays."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VT_REPO", "/repo")
NATIVE = os.path.join(VERIF, "native")
KNOWN = os.path.join(VERIF, "known_findings.txt")
PY = "/opt/venv/bin/python"
NCPU = max(1, min(8, os.cpu_count() or 1))

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def setup_path():
    for p in (os.path.join(REPO, "src"), os.path.join(VERIF, "lib", "shim"), os.path.join(VERIF, "lib")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class Inconclusive(Exception):
    pass


class Check:
    """One run of one check: scratch directory, statistics, verdict."""

    def __init__(self, pid, level="exploration"):
        setup_path()
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(VERIF, "build"))
        self.violations = []      # dicts with at least "msg" and "key"
        self.foreign = []         # divergences that belong to other properties
        self.samples = []
        self.evaluations = 0
        self.distinct = 0
        self.coverage = {}
        self.assumptions = []
        self.rule = ""

    # -- building ---------------------------------------------------------
    def path(self, *a):
        return os.path.join(self.dir, *a)

    def compile(self, src, out, incs=(), defs=(), opt="-O2", cxx=True):
        out = self.path(out)
        cmd = ["g++" if cxx else "gcc", opt, "-w", "-I", self.dir, "-I", NATIVE]
        for i in incs:
            cmd += ["-I", i]
        cmd += [f"-D{d}" for d in defs] + [src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("compilation failed: " + r.stderr[-1500:])
        return out

    # -- violations -------------------------------------------------------
    def violation(self, key, msg, **more):
        self.violations.append(dict(key=key, msg=msg, **more))

    def known(self):
        out = []
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", l.strip())
            if m and m.group(1) == self.pid:
                out.append(dict(match=m.group(2), what=m.group(3), id=m.group(2)))
        return out

    def unlisted(self):
        known = self.known()
        return [v for v in self.violations if not any(re.fullmatch(k["match"], v["key"]) for k in known)]

    def finish(self, floors=()):
        """floors: (name, measured, minimum) that must be reached for 'held'."""
        known = self.known()
        listed, fresh = {}, []
        for v in self.violations:
            k = next((k for k in known if re.fullmatch(k["match"], v["key"])), None)
            if k:
                listed.setdefault(k["id"], (k, v))
            else:
                fresh.append(v)
        missing = [f"{n}: {m} < {lo}" for n, m, lo in floors if m < lo]
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(evaluations=int(self.evaluations), distinct_nontrivial=int(self.distinct),
                                rule=self.rule, samples=self.samples[:12],
                                foreign_divergences=self.foreign[:5], **self.coverage),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.dir, ignore_errors=True)
        for k, v in listed.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if fresh:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            rp = os.path.join(VERIF, "replay", f"{self.pid}-{TIER}-{SEED}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, tier=TIER, seed=SEED,
                               how=f"VERIF_SEED={SEED} VERIF_TIER={TIER} ./check {self.pid}   (deterministic; or the per-violation command)",
                               violations=fresh[:20]), f, indent=1)
                f.write("\n")
            for v in fresh[:5]:
                print(f"# {v['msg']}"[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"# {self.pid}: {self.evaluations} evaluations, {self.distinct} distinct non-trivial, "
              f"{len(self.foreign)} foreign divergences, {time.time() - self.t0:.1f}s")
        if missing:
            print(f"INCONCLUSIVE {self.pid}: monitors did not observe enough: " + "; ".join(missing))
            return 2
        return 0


    def inconclusive(self, why):
        r = self.finish()
        if r == 1:
            return 1
        print(f"INCONCLUSIVE {self.pid}: {why}")
        return 2


def pool(fn, jobs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, jobs))


def run_json(cmd, timeout, cwd=None):
    """Run a native worker; return (list of V records, S record or None, rc, stderr)."""
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired as e:
        return [], None, -1, "timeout"
    vs, s = [], None
    for l in r.stdout.splitlines():
        if l.startswith("V "):
            try:
                vs.append(json.loads(l[2:]))
            except ValueError:
                vs.append(dict(props="", msg=l[:300]))
        elif l.startswith("S "):
            s = json.loads(l[2:])
    return vs, s, r.returncode, r.stderr[-2000:]
