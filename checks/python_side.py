"""Checks of the Python package and bindings: builds what they need and runs pydrive.py in parallel lanes."""
import json
import os
import random
import re
import shutil
import sys

from . import common
from .common import CheckError, INCLUDE, REPO, run
from .native import DEPTH, LE, TWOS, CompileFailure, compile_program

sys.path.insert(0, os.path.join(common.VERIF, "gen"))
import pymodule  # noqa: E402

PYTHON = "/opt/vp/venv/bin/python"
DRIVER = os.path.join(common.VERIF, "checks", "pydrive.py")
_flags = []


def python_flags():
    if not _flags:
        code, out, err = run([PYTHON, "-c", "import sysconfig, pybind11; print(sysconfig.get_paths()['include']); print(pybind11.get_include());"
                              "print(sysconfig.get_config_var('EXT_SUFFIX'))"])
        if code:
            raise CheckError("python: " + err)
        a, b, s = out.split()
        _flags.extend([f"-I{a}", f"-I{b}", s])
    return _flags[:2]


def ext_suffix():
    python_flags()
    return _flags[2]


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def build_extension(src, out, cxx="clang++-18", opt="-O0", std=17, hints=(), san=False):
    cmd = [cxx, f"-std=c++{std}", opt, "-w", "-shared", "-fPIC", "-fvisibility=hidden"] + list(hints) + python_flags() + ["-I" + INCLUDE]
    if cxx.startswith("clang"):
        cmd += DEPTH
        if san:
            cmd.append("-shared-libsan")
    if san:
        cmd += SAN
    compile_program(cmd + [src, "-o", out])


def build_package(site, cxx="clang++-18"):
    """A copy of the package with its compiled part. pybind11 shares types only between modules built by the same compiler."""
    package = os.path.join(site, "unpadded")
    os.makedirs(package, exist_ok=True)
    source = os.path.join(REPO, "py", "unpadded")
    for f in os.listdir(source):
        if f.endswith(".py") and f != "__main__.py":
            shutil.copy(os.path.join(source, f), package)
    shutil.copytree(INCLUDE, os.path.join(package, "include"), dirs_exist_ok=True)
    build_extension(os.path.join(source, "_details.cpp"), os.path.join(package, "_details" + ext_suffix()), cxx)


def build_part(directory, part, site, conf):
    name = part["spec"]["module"]
    src = os.path.join(directory, name + ".cpp")
    with open(src, "w") as f:
        f.write(part["source"])
    build_extension(src, os.path.join(site, name + ext_suffix()), **conf)


def environment(directory, san=None):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER")}
    tmp = os.path.join(directory, "tmp")
    os.makedirs(tmp, exist_ok=True)
    env.update(HOME=tmp, TMPDIR=tmp, CCACHE_DIR=os.path.join(directory, "ccache"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    if san:
        libs = []
        for lib in ("libasan.so", "libstdc++.so.6"):
            code, out, _ = run(["g++-13", "-print-file-name=" + lib])
            libs.append(os.path.realpath(out.strip()))
        env["LD_PRELOAD"] = " ".join(libs)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    return env


def lane(check, n, ctx, cases, seconds, san=False, seed=None):
    """Run the driver once; return its result, or a crash"""
    context = check.path(f"context{n}.json")
    with open(context, "w") as f:
        json.dump(ctx, f)
    out = check.path(f"lane{n}.json")
    seed = check.seed * 1000 + n if seed is None else seed
    code, o, err = run([PYTHON, DRIVER, check.prop, context, str(seed), str(cases), str(seconds), out], timeout=seconds + 300,
                       env=environment(check.dir, san), cwd=check.dir)
    if code == 0 and os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    if os.path.exists(out + ".case") and (code is None or code < 0 or re.search(r"runtime error:|AddressSanitizer|Aborted|terminate called", err)):
        with open(out + ".case") as f:
            case = json.load(f)
        text = [l for l in err.splitlines() if re.search(r"runtime error:|ERROR: AddressSanitizer|terminate called|what\(\)", l)]
        return dict(evaluations=0, nontrivial=[], samples=[], tags={}, rule="", case=case, seconds=0,
                    message="the interpreter crashed (" + (" ".join(text) or ("timeout" if code is None else f"signal {-code}"))[:400] + ")")
    raise CheckError(f"lane {n}: exit {code}\n{o[-500:]}\n{err[-3000:]}")


def replay_case(directory, prop, ctx, case, san=False):
    context, path = os.path.join(directory, "replay-context.json"), os.path.join(directory, "replay-case.json")
    with open(context, "w") as f:
        json.dump(ctx, f)
    with open(path, "w") as f:
        json.dump(case, f)
    code, out, err = run([PYTHON, DRIVER, prop, context, "1", "1", "60", path + ".out", path], timeout=300, env=environment(directory, san), cwd=directory)
    return code != 0, (out + err)[-3000:]


def collect(check, results, what, replay):
    """Aggregate the results of lanes [(ctx, san, result)]"""
    tags, seen = {}, set()
    for n, (ctx, san, r) in enumerate(results):
        check.evaluations += r["evaluations"]
        seen |= {(what(n), h) for h in r["nontrivial"]}
        check.rule = r["rule"] or check.rule
        check.samples += [json.dumps(s)[:1200] for s in r["samples"][:1]]
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        if r["message"]:
            failures = sum(replay_case(check.dir, check.prop, ctx, r["case"], san)[0] for _ in range(3))
            if failures == 3 or "crashed" in r["message"]:
                check.violation(r["message"], case=r["case"], san=san, **replay(n))
            elif failures:
                check.violation(f"{r['message']} (fails {failures} times out of 3)", case=r["case"], san=san, **replay(n))
            else:
                raise CheckError(f"not reproducible: {r['message']}")
    check.distinct = len(seen)
    check.coverage["classes"] = tags


def check_extension(check):
    """C24 and C25"""
    r = random.Random(f"plan {check.seed}/{check.prop}")
    quick = not check.thorough
    modules = []
    for n in range(6 if quick else 20):
        conf = dict(cxx="clang++-18", opt="-O0", std=[17, 20][n % 2], hints=[[], [LE, TWOS], [LE], [TWOS]][(n + r.randrange(4)) % 4], san=False)
        if n % 3 == 1:
            conf.update(cxx="g++-13", san=True, opt="-O0")
        if n % 3 == 2 and r.random() < .5:
            conf["opt"] = "-O2"
        large = False
        if n == 3:  # indexes of two bytes; the longest to compile by far
            large = 257
            conf.update(opt="-O0")
        name = f"gen_{check.prop.lower()}_{n}"
        count = r.choice([1, 2]) if conf["san"] else r.choice([2, 3])
        parts = [dict(zip(("source", "spec"), pymodule.module(f"{check.seed}/{check.prop}", n, name, large, count)))]
        if n % 3 == 0 and not large:  # an interpreter with another module holding functions of the same names
            parts.append(dict(zip(("source", "spec"), pymodule.module(f"{check.seed}/{check.prop}", n, name + "_twin", large, count, 100000))))
        if n % 3 == 2:  # an interpreter with an unrelated module
            parts.append(dict(zip(("source", "spec"), pymodule.module(f"{check.seed}/{check.prop}", n + 1000, name + "_other", False, 1))))
        modules.append(dict(name=name, parts=parts, conf=conf))
    jobs = [(p, m["conf"]) for m in sorted(modules, key=lambda m: -max(len(k["functions"]) for p in m["parts"] for k in p["spec"]["keyrings"])) for p in m["parts"]]
    compilers = sorted({m["conf"]["cxx"] for m in modules})

    def build(k):
        if k < 0:
            return build_package(check.path("site-" + compilers[-k - 1]), compilers[-k - 1])
        part, conf = jobs[k]
        try:
            build_part(check.dir, part, check.path("site-" + conf["cxx"]), conf)
        except CompileFailure as e:
            check.violation(f"a valid extension module is rejected by {conf}: {e.text}", kind="pycompile", parts=[part], conf=conf)

    python_flags()
    for c in compilers:
        os.makedirs(check.path("site-" + c))
    common.pool(build, list(range(len(jobs))) + list(range(-len(compilers), 0)))
    if check.violations:
        return check.finish()
    cases, seconds = (2500, 20) if quick else (40000, 200)

    def go(n):
        m = modules[n]
        ctx = dict(path=[check.path("site-" + m["conf"]["cxx"])], specs=[p["spec"] for p in m["parts"]])
        return ctx, m["conf"]["san"], lane(check, n, ctx, cases, seconds, m["conf"]["san"])

    results = common.pool(go, range(len(modules)))
    collect(check, results, lambda n: n, lambda n: dict(kind="extension", parts=modules[n]["parts"], conf=modules[n]["conf"]))
    check.coverage["modules"] = [f"{' and '.join(p['spec']['module'] for p in m['parts'])}: {sum(len(k['functions']) for p in m['parts'] for k in p['spec']['keyrings'])}"
                                 f" functions in {sum(len(p['spec']['keyrings']) for p in m['parts'])} keyrings, {m['conf']}" for m in modules]
    check.assumptions = ["CPython 3.12, pybind11 of /opt/vp/venv", "reference model in checks/wire.py"]
    return check.finish()


def check_lanes(check):
    """C26 and C27: the package alone"""
    quick = not check.thorough
    python_flags()
    extra = {}
    parts = []
    if check.prop == "C26":
        parts = [dict(zip(("source", "spec"), pymodule.module(f"{check.seed}/C26", 0, "gen_c26", keyrings=3)))]
    site = check.path("site")
    os.makedirs(site)

    def build(k):
        if k == 0:
            return build_package(site)
        build_part(check.dir, parts[k - 1], site, {})

    try:
        common.pool(build, range(len(parts) + 1))
    except CompileFailure as e:
        check.violation(f"the package does not compile: {e.text}", kind="package")
        return check.finish()
    if parts:
        extra["specs"] = [p["spec"] for p in parts]
    cases, seconds = {"C26": ((3000, 14), (60000, 240)), "C27": ((400, 26), (20000, 500))}[check.prop][0 if quick else 1]
    contexts = []
    for n in range(common.JOBS):
        scratch = check.path(f"scratch{n}")
        os.makedirs(scratch)
        contexts.append(dict(path=[site], site=site, scratch=scratch, python=PYTHON, shrink_seconds=40, **extra))
    results = common.pool(lambda n: (contexts[n], False, lane(check, n, contexts[n], cases, seconds)), range(len(contexts)))
    collect(check, results, lambda n: 0, lambda n: dict(kind="lane", parts=parts))
    check.assumptions = ["CPython 3.12, cppimport, setuptools and ccache as installed in /opt/vp/venv"]
    return check.finish()


def replay(d, directory):
    class C:
        dir = directory
    python_flags()
    site = os.path.join(directory, "site")
    os.makedirs(site)
    try:
        build_package(site, d.get("conf", {}).get("cxx", "clang++-18"))
        for part in d.get("parts", []):
            build_part(directory, part, site, d.get("conf", {}))
    except CompileFailure as e:
        return "rejected: " + e.text
    if d["kind"] in ("pycompile", "package"):
        return None
    scratch = os.path.join(directory, "scratch")
    os.makedirs(scratch)
    ctx = dict(path=[site], site=site, scratch=scratch, python=PYTHON, specs=[p["spec"] for p in d.get("parts", [])])
    failed, text = replay_case(directory, d["property"], ctx, d["case"], d.get("san"))
    print(text)
    return text.strip().splitlines()[-1] if failed else None
