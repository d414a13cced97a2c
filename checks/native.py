"""Checks of the C++ library: generated programs linked with the property engine."""
import json
import os
import random
import re
import shutil
import struct
import sys
import tempfile

from . import common
from .common import CheckError, HARNESS, INCLUDE, run

sys.path.insert(0, os.path.join(common.VERIF, "gen"))
import program  # noqa: E402

LE = "-DUPD_PLATFORM_ENDIANESS=LITTLE"
TWOS = "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"
HINTS = [[], [LE, TWOS], [LE], [TWOS]]
TSAN = ["-fsanitize=thread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
DEPTH = ["-fbracket-depth=2048", "-ftemplate-depth=2048"]


def config(cxx, std, opt, hints=(), san=False):
    return dict(cxx=cxx, std=std, opt=opt, hints=list(hints), san=san)


def config_name(c):
    return f"{c['cxx']} -std=c++{c['std']} {c['opt']}" + ("".join(" " + h for h in c["hints"])) + (" TSan" if c["san"] == "thread" else " ASan+UBSan" if c["san"] else "")


def sanitizers(c):
    return TSAN if c["san"] == "thread" else SAN if c["san"] else []


def compile_command(c, src, obj, extra=()):
    cmd = [c["cxx"], f"-std=c++{c['std']}", c["opt"], "-w", "-pipe"] + c["hints"]
    if c["cxx"].startswith("clang"):
        cmd += DEPTH
        if c["san"]:
            cmd.append("-ftrivial-auto-var-init=pattern")
    else:
        cmd += ["-ftemplate-depth=2048"]
    return cmd + sanitizers(c) + list(extra) + ["-I" + HARNESS, "-I" + INCLUDE, "-c", src, "-o", obj]


def link_command(c, objs, exe, extra=()):
    return [c["cxx"]] + sanitizers(c) + objs + list(extra) + ["-o", exe]


class CompileFailure(Exception):
    def __init__(self, text):
        self.text = text


def compile_program(cmd):
    """Compile; raise CompileFailure when the compiler rejects the program"""
    text = ""
    for attempt in range(2):
        code, out, err = run(cmd, timeout=400)
        if code == 0:
            return
        text = err
        errors = [l for l in err.splitlines() if re.search(r"\berror\b", l)]
        if errors and not re.search(r"Killed|out of memory|cannot allocate|No space left|internal compiler error", err, re.I):
            raise CompileFailure("\n".join(errors[:4]))
    raise CheckError("cannot compile: " + " ".join(cmd) + "\n" + text[-2000:])


def build_harness(directory, cxx="g++-13", extra=(), names=("engine", "props_tuple", "props_rpc", "alloc")):
    def one(name):
        obj = os.path.join(directory, name + ".o")
        code, _, err = run([cxx, "-std=c++17", "-O1", "-w", "-pipe", "-I" + HARNESS, "-c", os.path.join(HARNESS, name + ".cpp"),
                            "-o", obj] + list(extra), timeout=300)
        if code:
            raise CheckError(f"cannot build the harness ({name}): {err[-2000:]}")
        return obj

    return dict(zip(names, common.pool(one, names)))


# ---------------------------------------------------------------- plans

# Shapes of keyrings, per property: (shapes of sanitized programs, shapes of programs built without sanitizers)
RPC_DEFAULT = (["small", "users", "over", "largeret", "nullary", "mix", "same", "functors", "huge"],
               ["small", "big", "void", "users", "long", "hugeret"])
PLANS = {
    "C08": (["small", "users", "256", "over", "nullary", "mix", "void", "largereq", "huge"],
            ["small", "255", "users", "small", "long", "hugereq", "vast"]),
    "C09": (["small", "users", "over", "largeret", "nullary", "mix", "void", "functors", "huge"],
            ["small", "users", "largeret", "mix", "long", "hugeret", "vast"]),
    "C10": (["small", "users", "users", "largeret", "nullary", "mix", "void", "functors", "huge"],
            ["small", "users", "largeret", "mix", "long", "hugeret", "vast"]),
    "C11": (["small", "users", "256", "over", "nullary", "mix", "void", "functors", "huge"],
            ["small", "255", "users", "same", "long", "vast"]),
    "C12": (RPC_DEFAULT[0], RPC_DEFAULT[1] + ["vast"]),
    "C13": (["small", "users", "256", "over", "nullary", "largeret", "void", "one", "huge"],
            ["mix", "small", "users", "largereq", "long", "hugereq"]),
    "C14": (["small", "users", "256", "big", "nullary", "mix", "257", "one", "huge"],
            ["small", "255", "users", "functors", "long"]),
    "C15": (["small", "users", "over", "largeret", "nullary", "largereq", "void", "one", "mix", "mix", "huge"],
            ["mix", "users", "mix", "nullary", "hugereq", "hugeret"]),
    "C16": (["small", "users", "over", "largeret", "nullary", "largereq", "void", "mix", "huge"],
            ["small", "users", "same", "functors", "mix", "hugeret"]),
    "C19": (["small", "users", "peer", "largeret", "nullary", "largereq", "peer", "one", "mix", "hugeret"],
            ["small", "users", "largeret", "peer", "long"]),
    "C21": (["small", "users", "small", "largeret", "nullary", "mix", "over", "functors", "huge"],
            ["small", "users", "small", "mix", "long"]),
}
TUPLE_PROPS = ("C01", "C02", "C03", "C04", "C05", "C06")
RPC_PROPS = ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C29")

CASES = {"C12": 5000, "C15": 5000, "C17": 4000, "C18": 4000, "C20": 5000, "C21": 6000, "C22": 5000, "C23": 5000, "C29": 2500}


class Unit:
    """A program to build and run"""

    def __init__(self, name, seed, index, conf, typelists=0, keyrings=(), alloc=False, **kw):
        self.name, self.conf, self.alloc = name, conf, alloc
        self.keyrings, self.typelists = list(keyrings), typelists + kw.get("longlists", 0)
        self.cap = 150 if kw.get("vast") == "vast" or "vast" in self.keyrings else None
        self.slow = kw.get("vast") == "wide"
        self.source = program.make_unit(seed, index, conf["std"], typelists=typelists, keyrings=keyrings, **kw)

    def describe(self):
        return f"{self.name}: {self.typelists} type lists, keyrings {self.keyrings}; {config_name(self.conf)}"


def conf_sanitized(r, i):
    return config("clang++-18", [17, 11, 20, 14][(i + r.randrange(2) * 2) % 4], "-O0", HINTS[(i // 2 + r.randrange(4)) % 4], True)


def conf_plain(r, i):
    return config(["g++-13", "g++-11", "g++-13", "clang++-18"][i % 4], [11, 17, 20, 14][(i + r.randrange(4)) % 4],
                  ["-O2", "-O1", "-O3", "-O2"][i % 4] if r.random() < .5 else "-O1", HINTS[(i + r.randrange(4)) % 4])


def thread_sanitizer_works():
    """Some kernels or sandboxes do not let programs built with ThreadSanitizer start"""
    d = tempfile.mkdtemp(prefix="upd-tsan-")
    try:
        exe = os.path.join(d, "x")
        with open(exe + ".cpp", "w") as f:
            f.write("#include <pthread.h>\n#include <sys/wait.h>\n#include <unistd.h>\n"
                    "void *f(void *p) { ++*(int *)p; return p; }\n"
                    "int main() { pid_t p = fork(); if (p) { int s = 1; waitpid(p, &s, 0); return s != 0; }\n"
                    "pthread_t t; int i = 0; if (!pthread_create(&t, 0, f, &i)) pthread_join(t, 0); _exit(i != 1); }\n")
        code, _, _ = run(["clang++-18"] + TSAN + [exe + ".cpp", "-o", exe], timeout=100)
        return code == 0 and all(run([exe], timeout=60)[0] == 0 for _ in range(5))
    finally:
        shutil.rmtree(d)


def big(r, shape):
    if shape == "over":  # some indexes do not fit in one byte
        return r.choice(["257", "300"])
    if shape == "long":
        return r.choice(["huge", "hugereq", "hugeret"])
    return r.choice(["255", "257", "300", "256"]) if shape == "big" else shape


def plan(prop, seed, tier):
    """The programs of a check, most valuable first"""
    key = f"{seed}/{prop}"
    r = random.Random("plan " + key)
    rounds = 1 if tier == "quick" else 5
    units = []
    for n in range(rounds):
        def add(kind, i, conf, **kw):
            index = len(units) + 1
            units.append(Unit(f"{kind}{index}", key, index, conf, **kw))

        if prop in TUPLE_PROPS:
            rpc = prop in ("C01", "C02", "C06")
            for i in range(8):
                conf = conf_sanitized(r, i)
                if n:
                    conf["opt"] = r.choice(["-O0", "-O1", "-O2"])
                kw = dict(longlists=1 if i in (1, 4, 7) else 0)
                if rpc and i in (0, 3, 6):
                    add("s", i, conf, typelists=1, keyrings=[["users", "largereq", "mix"][(i // 3 + n) % 3]])
                elif prop == "C05":
                    add("s", i, conf, typelists=3, assigns=8, views=2, formats=2, **kw)
                elif prop == "C04":
                    add("s", i, conf, typelists=3, assigns=1, views=8, formats=2, **kw)
                elif prop in ("C01", "C02"):
                    add("s", i, conf, typelists=3 if kw["longlists"] else 4, assigns=1, views=2, formats=5, **kw)
                else:
                    add("s", i, conf, typelists=3 if kw["longlists"] else 4, assigns=2, views=3, formats=3, users=4 if prop == "C06" else 2, **kw)
            for i in range(4):
                if rpc and i == 1:
                    add("p", i, conf_plain(r, i), typelists=1, keyrings=["huge"] if prop == "C06" else ["users"])
                else:
                    add("p", i, conf_plain(r, i), typelists=2, longlists=1 if i != 1 else 0, assigns=6 if prop == "C05" else 2, views=4, formats=4)
            # More than 65535 bytes, more than 255 elements
            if prop != "C02":
                add("p", 4, conf_plain(r, n), longlists=1, vast="vast")
            if prop == "C03" or prop in ("C04", "C05") and tier != "quick":
                add("p", 4, dict(conf_plain(r, n + 1), opt="-O0", cxx="g++-13"), longlists=1, vast="wide")
        elif prop == "C29":
            tsan = thread_sanitizer_works()
            for i in range(9):
                conf = conf_sanitized(r, i)
                if i % 3 != 2 and tsan:
                    conf.update(san="thread", opt=["-O1", "-O0"][i % 2])
                kw = dict(longlists=1) if i == 4 else {}
                if i % 3 == 1:
                    add("t" if conf["san"] == "thread" else "s", i, conf, typelists=3, assigns=3, views=3, formats=3, **kw)
                else:
                    shape = ["small", "", "users", "functors", "", "mix", "huge", "", "largeret"][i]
                    add("t" if conf["san"] == "thread" else "s", i, conf, typelists=1, keyrings=[big(r, shape)])
            for i, s in enumerate(["small", "", "big", "users", "mix", "nullary"]):
                if s:
                    add("p", i, conf_plain(r, i), typelists=1, keyrings=[big(r, s)])
                else:
                    add("p", i, conf_plain(r, i), typelists=2, assigns=3, views=3, formats=3)
        elif prop == "C22":
            shapes = ["small", "users", "big", "largeret", "nullary", "small", "void", "functors", "same", "largereq", "mix", "huge"]
            for i, s in enumerate(shapes):
                add("p", i, conf_plain(r, i), typelists=1 if i % 3 == 0 else 0, keyrings=[big(r, s)], alloc=True)
        else:
            san, plain = PLANS.get(prop, RPC_DEFAULT)
            for i, s in enumerate(san):
                conf = conf_sanitized(r, i)
                s = big(r, s)
                if n and not s.isdigit():
                    conf["opt"] = r.choice(["-O0", "-O1"])
                add("s", i, conf, keyrings=[s] if s.isdigit() or s == "peer" else [s, "small"] if n else [s])
            for i, s in enumerate(plain):
                add("p", i, conf_plain(r, i), keyrings=[big(r, s)])
    # The longest to compile first
    units.sort(key=lambda u: -u.slow - sum(k.isdigit() or k == "peer" for k in u.keyrings))
    return units


# ---------------------------------------------------------------- running

def build_unit(check, unit, harness, tag=""):
    base = check.path(unit.name + tag)
    with open(base + ".cpp", "w") as f:
        f.write(unit.source)
    compile_program(compile_command(unit.conf, base + ".cpp", base + ".o"))
    objs = [base + ".o", harness["engine"], harness["props_tuple"], harness["props_rpc"]] + ([harness["alloc"]] if unit.alloc else [])
    code, _, err = run(link_command(unit.conf, objs, base), timeout=300)
    if code:
        raise CheckError("cannot link: " + err[-2000:])
    os.unlink(base + ".o")
    return base


def reject(check, unit, e):
    check.violation(f"a valid program is rejected by {config_name(unit.conf)}: {e.text}", kind="compile", conf=unit.conf, source=unit.source)


def run_unit(check, unit, exe, cases, seconds, shrink=15):
    out = exe + ".json"
    code, o, err = run([exe, "--prop", check.prop, "--seed", str(check.seed), "--cases", str(cases), "--seconds", str(seconds),
                        "--shrink-seconds", str(shrink), "--out", out], timeout=seconds + 400)
    if code is None or not os.path.exists(out):
        raise CheckError(f"{unit.describe()}: exit {code}: {(o + err)[-1000:]}")
    with open(out) as f:
        d = json.load(f)
    hashes = set()
    if os.path.exists(out + ".hashes"):
        data = open(out + ".hashes", "rb").read()
        hashes = set(struct.unpack(f"<{len(data) // 8}Q", data[:len(data) // 8 * 8]))
        os.unlink(out + ".hashes")
    return d, hashes


def check_native(check):
    prop = check.prop
    units = plan(prop, check.seed, check.tier)
    cases = CASES.get(prop, 6000)
    seconds = 20
    if check.thorough:
        cases, seconds = cases * 20, 60
    harness = build_harness(check.dir)
    stop = []

    def one(unit):
        if stop:
            return None
        try:
            exe = build_unit(check, unit, harness)
        except CompileFailure as e:
            stop.append(1)
            reject(check, unit, e)
            return None
        d, hashes = run_unit(check, unit, exe, min(cases, unit.cap or cases), seconds)
        if d["failed"]:
            stop.append(1)
        os.unlink(exe)
        return unit, d, hashes

    tags, programs = {}, []
    results = [x for x in common.pool(one, units) if x]
    for unit, d, hashes in results:
        check.evaluations += d["evals"]
        check.distinct += len(hashes)
        check.rule = d["rule"]
        for k, v in d["tags"].items():
            tags[k] = tags.get(k, 0) + v
        programs.append(f"{unit.describe()}; {d['evals']} cases, {d['nontrivial']} non-trivial, {d['seconds']} s")
        for s in d["samples"][:1]:
            check.samples.append(f"[{unit.name}] " + s[:1500])
        if d["failed"]:
            check.violation(f"{d['message']} [{unit.describe()}, case {d['case']}"
                            + ("" if d["reproduced"] else ", not reproduced by every replay") + "]",
                            kind="native", conf=unit.conf, source=unit.source, alloc=unit.alloc, choices=d["choices"],
                            range=d.get("range"), seed=check.seed, description=d["desc"])
    check.coverage.update(programs=len(programs), program_list=programs, classes=tags)
    check.rule = "Each case runs generated operations on a generated program (counted once per distinct choice sequence and " \
                 "program). Non-trivial: " + check.rule
    check.assumptions = ["the platform is little-endian and two's complement (x86-64)", "reference model in harness/model.hpp",
                         "the compilers g++-11, g++-13 and clang++-18 and their sanitizers"]
    if check.thorough and not check.violations:
        fuzz(check)
    return check.finish()


# ---------------------------------------------------------------- coverage-guided stage of the thorough tier

def fuzz(check, seconds=180):
    """libFuzzer drives the choices of the same property"""
    conf = config("clang++-18", 17, "-O1", [], True)
    shapes = [[big(random.Random(check.seed), s)] for s in PLANS.get(check.prop, RPC_DEFAULT)[0][:4]]
    harness = build_harness(check.dir, "clang++-18", ["-DFUZZING", "-g"], ("engine", "props_tuple", "props_rpc"))
    total = {}

    def one(k):
        kw = dict(typelists=2) if check.prop in TUPLE_PROPS else dict(keyrings=shapes[k])
        unit = Unit(f"fuzz{k}", f"{check.seed}/{check.prop}/fuzz", k + 1, conf, alloc=False, **kw)
        base = check.path(unit.name)
        with open(base + ".cpp", "w") as f:
            f.write(unit.source)
        try:
            compile_program(compile_command(conf, base + ".cpp", base + ".o", ["-fsanitize=fuzzer-no-link"]))
        except CompileFailure as e:
            reject(check, unit, e)
            return
        code, _, err = run(link_command(conf, [base + ".o"] + list(harness.values()), base, ["-fsanitize=fuzzer"]), timeout=300)
        if code:
            raise CheckError("cannot link the fuzz target: " + err[-2000:])
        corpus = base + ".corpus"
        os.makedirs(corpus, exist_ok=True)
        env = dict(os.environ, PBT_PROP=check.prop)
        code, out, err = run([base, "-max_total_time=%d" % seconds, "-seed=%d" % (check.seed or 1), "-max_len=4096", "-print_final_stats=1",
                              "-artifact_prefix=" + base + ".art-", "-rss_limit_mb=3000", corpus], timeout=seconds + 300, env=env, cwd=check.dir)
        m = re.search(r"number_of_executed_units:\s*(\d+)", err)
        total[k] = int(m.group(1)) if m else 0
        if code not in (0, None):
            arts = [os.path.join(check.dir, a) for a in os.listdir(check.dir) if a.startswith(unit.name + ".art-")]
            arts = [a for a in arts if "oom" not in a and "timeout" not in a and "slow" not in a]
            if arts:
                data = open(arts[0], "rb").read()
                ok = sum(run([base, arts[0]], env=env, timeout=100)[0] != 0 for _ in range(3))
                if ok == 3:
                    text = [l for l in err.splitlines() if "FAILED" in l or "ERROR" in l or "runtime error" in l]
                    check.violation("libFuzzer: " + " ".join(text[:2])[:600], kind="fuzz", conf=conf, source=unit.source, input=data.hex())

    common.pool(one, range(4 if check.prop != "C22" else 0), 4)
    check.evaluations += sum(total.values())
    check.coverage["coverage_guided_executions"] = sum(total.values())


# ---------------------------------------------------------------- C07

def diff_configs(r, n):
    full = [
        config("g++-13", 17, "-O0", []),
        config("g++-13", 11, "-O2", [LE, TWOS]),
        config("clang++-18", 20, "-O2", [TWOS]),
        config("clang++-18", 17, "-O0", [LE], True),
        config("g++-11", 14, "-O1", [LE]),
        config("g++-11", 17, "-O2", [TWOS]),
        config("clang++-18", 11, "-O1", [LE, TWOS]),
        config("clang++-18", 14, "-O0", [LE, TWOS], True),
    ]
    extra = [config(c, s, o, h) for c in ("g++-13", "g++-11", "clang++-18") for s in (11, 14, 17, 20) for o in ("-O0", "-O1", "-O2", "-O3", "-Os")
             for h in HINTS]
    return full + r.sample(extra, n - len(full)) if n > len(full) else full


def transcript(check, exe, cases):
    out = exe + ".tr"
    code, o, err = run([exe, "--prop", "C07", "--seed", str(check.seed), "--cases", str(cases), "--transcript", "--out", out], timeout=600)
    if code != 0:
        raise CheckError(f"transcript: exit {code}: {(o + err)[-500:]}")
    d = {}
    for line in open(out):
        w = line.rstrip("\n").split(" ", 3)
        d[int(w[0])] = ("crash", w[3] if len(w) > 3 else "") if w[1] == "crash" else (w[1], w[2])
    return d


def compare(transcripts):
    """First disagreement between transcripts (one per configuration): (case, {config: observation})"""
    for i in sorted(set().union(*transcripts.values())):
        seen = {c: t[i] for c, t in transcripts.items() if i in t}
        if len({v[0] for v in seen.values()}) > 1:
            return i, seen
    return None


def check_c07(check):
    r = random.Random(f"plan {check.seed}/C07")
    nprograms, nconfigs, cases = (4, 8, 2500) if check.tier == "quick" else (12, 14, 20000)
    harness = build_harness(check.dir)
    shapes = ["small", "users", "largeret", "same", "functors", "largereq", "nullary", "void"]
    jobs = []
    for p in range(nprograms):
        if p == 0:
            kw = dict(typelists=2, formats=4, views=4, assigns=4, fixed_formats=True)
        elif p % 4 == 1:  # sizes over 255 bytes
            kw = dict(longlists=1, keyrings=[r.choice(["huge", "hugereq", "hugeret"])], fixed_formats=True)
        else:
            kw = dict(keyrings=[shapes[(r.randrange(8) + p) % 8]], fixed_formats=True)
            if p % 3 == 0:
                kw["typelists"] = 1
        for c in diff_configs(r, nconfigs):
            # the source of a program does not depend on the configuration
            jobs.append(Unit(f"d{p}", f"{check.seed}/C07", p + 1, c, **kw))
            jobs[-1].job = len(jobs)

    def one(unit):
        try:
            exe = build_unit(check, unit, harness, f"-{unit.job}")
        except CompileFailure as e:
            reject(check, unit, e)
            return None
        t = transcript(check, exe, cases)
        os.unlink(exe)
        return unit, t

    results = [x for x in common.pool(one, jobs) if x]
    programs = {}
    for unit, t in results:
        programs.setdefault(unit.name, []).append((unit, t))
    compared = 0
    for name, rs in programs.items():
        ts = {config_name(u.conf): t for u, t in rs}
        for t in ts.values():
            check.evaluations += len(t)
        for i in set().union(*ts.values()):
            obs = [t[i] for t in ts.values() if i in t]
            if len(obs) > 1:
                compared += 1
                if any(o[1] == "1" for o in obs):
                    check.distinct += 1
        bad = compare(ts)
        if bad:
            i, seen = bad
            groups = {}
            for c, v in seen.items():
                groups.setdefault(v[0], []).append(c)
            small = min(groups.values(), key=len)[0]
            large = max((g for g in groups.values() if small not in g), key=len)[0]
            confs = [next(u.conf for u, _ in rs if config_name(u.conf) == c) for c in (small, large)]
            note = next((v[1] for v in seen.values() if v[0] == "crash"), "different observations")
            check.violation(f"case {i} of {rs[0][0].describe()}: {small} and {large} disagree: {note}", kind="diff", confs=confs,
                            source=rs[0][0].source, case=i, seed=check.seed)
        check.samples.append(f"{name}: cases 0..{cases - 1} gave the same observations in {len(ts)} configurations, e.g. case 9: "
                             f"{next(iter(ts.values())).get(9)}")
    check.coverage.update(programs=len(programs), configurations=sorted({config_name(u.conf) for u, _ in results}), cases_compared=compared)
    check.rule = "One case = one generated history over one generated program run in one configuration; non-trivial (counted once " \
                 "per history, not per configuration): the history is non-trivial by the rule of the property it exercises and was " \
                 "run in at least two configurations"
    check.assumptions = ["x86-64 (the hints that are true here are LITTLE and TWOS_COMPLEMENT)"]
    return check.finish()


# ---------------------------------------------------------------- replay

def replay(d, directory):
    """Run a replay file again; return a message if it still fails"""
    prop = d["property"]

    class U:
        pass

    def build(conf, tag="r"):
        u = U()
        u.name, u.conf, u.source, u.alloc = tag, conf, d["source"], d.get("alloc", False)
        c = U()
        c.path = lambda *n: os.path.join(directory, *n)
        return build_unit(c, u, harness)

    try:
        if d["kind"] == "compile":
            src = os.path.join(directory, "r.cpp")
            with open(src, "w") as f:
                f.write(d["source"])
            compile_program(compile_command(d["conf"], src, os.path.join(directory, "r.o")))
            return None
        harness = build_harness(directory)
        if d["kind"] == "native":
            exe = build(d["conf"])
            if d.get("range"):
                a, b = d["range"]
                cmd = [exe, "--prop", prop, "--seed", str(d["seed"]), "--from", str(a), "--to", str(b)]
            else:
                path = os.path.join(directory, "choices")
                with open(path, "w") as f:
                    f.write(" ".join(map(str, d["choices"])))
                cmd = [exe, "--prop", prop, "--replay", path]
            code, out, err = run(cmd, timeout=300)
            print(out + err)
            return out if code == 1 else None
        if d["kind"] == "diff":
            obs = []
            for k, conf in enumerate(d["confs"]):
                exe = build(conf, f"r{k}")
                code, out, err = run([exe, "--prop", "C07", "--seed", str(d["seed"]), "--from", str(d["case"]), "--cases", str(d["case"] + 1),
                                      "--transcript", "--verbose", "--out", exe + ".tr"], timeout=300)
                text = open(exe + ".tr").read().split(" ", 2)
                print(f"--- {config_name(conf)}\n{out}{' '.join(text)}")
                obs.append(text[1])
            return "different observations" if len(set(obs)) > 1 else None
        if d["kind"] == "fuzz":
            harness = build_harness(directory, "clang++-18", ["-DFUZZING", "-g"], ("engine", "props_tuple", "props_rpc"))
            base = os.path.join(directory, "r")
            with open(base + ".cpp", "w") as f:
                f.write(d["source"])
            compile_program(compile_command(d["conf"], base + ".cpp", base + ".o", ["-fsanitize=fuzzer-no-link"]))
            run(link_command(d["conf"], [base + ".o"] + list(harness.values()), base, ["-fsanitize=fuzzer"]), timeout=300)
            with open(base + ".in", "wb") as f:
                f.write(bytes.fromhex(d["input"]))
            code, out, err = run([base, base + ".in"], timeout=200, env=dict(os.environ, PBT_PROP=prop))
            print(err[-3000:])
            return "fails" if code else None
    except CompileFailure as e:
        return "rejected: " + e.text
    raise CheckError("unknown kind of replay file")
