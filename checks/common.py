"""What every check shares: options, scratch directories, evidence, replay files and the verdict."""
import concurrent.futures
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UPD_REPO", "/repo")
INCLUDE = os.path.join(REPO, "include")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 8))

os.environ["LC_ALL"] = "C.UTF-8"
os.environ["CCACHE_DISABLE"] = "1"


class CheckError(Exception):
    """The check could not decide"""


class Violation:
    def __init__(self, message, replay):
        self.message, self.replay = message, replay


class Check:
    """State of one run of a check"""

    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.start = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.start

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def violation(self, message, **replay):
        replay = dict(property=self.prop, message=message, **replay)
        text = json.dumps(replay, indent=1, sort_keys=True)
        name = f"{self.prop}-{hashlib.sha1(text.encode()).hexdigest()[:12]}.json"
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            f.write(text)
        self.violations.append(Violation(message, path))

    def finish(self):
        """Write the evidence, print the verdict and return the exit code"""
        shutil.rmtree(self.dir, ignore_errors=True)
        coverage = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=self.rule, samples=self.samples[:6])
        coverage.update(self.coverage)
        evidence = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=coverage,
                        assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
        for v in self.violations[:5]:
            print(f"{self.prop}: {v.message}")
        for v in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={v.replay}")
        if not self.violations:
            print(f"{self.prop}: held on {self.evaluations} cases ({self.distinct} distinct non-trivial), "
                  f"{self.elapsed():.0f} s, seed {self.seed}, {self.tier}")
        sys.stdout.flush()
        return 1 if self.violations else 0


def run(cmd, timeout=600, cwd=None, env=None, memory_gb=None, stdin=None):
    """Run a command; return (code, stdout, stderr); code None on a timeout"""

    def limits():
        os.setsid()
        if memory_gb:
            resource.setrlimit(resource.RLIMIT_AS, (memory_gb << 30, memory_gb << 30))

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=limits,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        p.communicate()
        return None, "", "timeout"


def pool(function, items, jobs=JOBS):
    """Map in parallel, in order"""
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(function, items))
