"""C30: generated programs of several translation units, and every public header on its own"""
import glob
import hashlib
import os
import random
import shutil
import sys

from . import common
from .common import CheckError, INCLUDE, run
from .native import DEPTH

sys.path.insert(0, os.path.join(common.VERIF, "gen"))
import units as gen  # noqa: E402

COMPILERS = ["clang++-18", "g++-13", "g++-11"]
STANDARDS = [11, 14, 17, 20]
WHOLE = ["-fno-rtti", "-funsigned-char", "-fshort-enums", "-fno-exceptions", "-pedantic", "-DNDEBUG", "-fno-threadsafe-statics"]
RULE = "one case = a program of several translation units generated, built with one compiler, standard and set of options, and run, or one order of " \
       "inclusion of the public headers compiled; non-trivial: at least two units with operations in them, or at least one header; distinct by text"


def public_headers():
    """The headers that a user may include; python.hpp needs the headers of pybind11"""
    found = sorted(os.path.basename(p) for p in glob.glob(os.path.join(INCLUDE, "upd", "*.hpp")))
    if not found:
        raise CheckError("no public header")
    return [h for h in found if h != "python.hpp"]


def options(conf):
    return [conf["cxx"], f"-std=c++{conf['std']}", "-w", "-I" + INCLUDE] + conf["whole"] + (DEPTH if conf["cxx"].startswith("clang") else [])


def errors(err):
    found = [l for l in err.splitlines() if "error:" in l or "multiple definition" in l or "undefined reference" in l or "duplicate symbol" in l]
    return "; ".join(l[-300:] for l in found)[:500]


def build_and_run(directory, case):
    """The violation that a program shows, or None. The program without what belongs to the library is known to be well-formed"""
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    texts = gen.files(case["spec"])
    for name, text in texts.items():
        with open(os.path.join(directory, name), "w") as f:
            f.write(text)
    conf = case["conf"]
    objects = []
    for i, o in enumerate(conf["levels"][:len(case["spec"]["tus"])]):
        out = os.path.join(directory, f"unit_{i}.o")
        code, _, err = run(options(conf) + [o, "-c", os.path.join(directory, f"unit_{i}.cpp"), "-o", out], timeout=200)
        if code is None:
            return "slow"
        if code:
            if "error:" not in err:
                raise CheckError(f"{conf['cxx']}: exit {code}: {err[-500:]}")
            return f"{conf['cxx']} -std=c++{conf['std']} rejects a unit: {errors(err)}"
        objects.append(out)
    exe = os.path.join(directory, "program")
    code, _, err = run([conf["cxx"]] + conf["whole"] + objects + ["-o", exe], timeout=200)
    if code is None:
        return "slow"
    if code:
        if not errors(err):
            raise CheckError(f"link: exit {code}: {err[-500:]}")
        return f"the units cannot be linked together: {errors(err)}"
    code, out, err = run([exe], timeout=60, memory_gb=4)
    want = gen.expected(case["spec"])
    lines = [l.rstrip() for l in out.splitlines()]
    want = [l.rstrip() for l in want]
    if code != 0 or lines != want:
        bad = next((i for i in range(max(len(lines), len(want))) if lines[i:i + 1] != want[i:i + 1]), None)
        if bad is None:
            return f"the program ends with {code} after the expected output {err[-200:]}"
        ops = [o for tu in case["spec"]["tus"] for o in tu["ops"]]
        return f"exit {code}; operation {ops[bad]['op'] if bad < len(ops) else '?'}: printed {lines[bad:bad + 1]} instead of {want[bad:bad + 1]}"[:900]
    return None


def make(seed):
    r = random.Random(f"conf {seed}")
    std = r.choice([11, 14, 17, 17, 17, 20])
    spec = gen.spec(seed, std)
    conf = dict(cxx=r.choice(COMPILERS), std=std, whole=sorted(r.sample(WHOLE, r.choice([0, 0, 1, 2]))), levels=[r.choice(["-O0", "-O0", "-O1", "-O2"]) for _ in spec["tus"]])
    return dict(spec=spec, conf=conf)


def shrink(directory, case, message, until, elapsed):
    """Remove parts of the program while it still fails"""
    progress = True
    plain = dict(case, conf=dict(case["conf"], whole=[], levels=["-O0"] * 9))
    m = build_and_run(directory, plain)
    if m and m != "slow":
        case, message = plain, m
    while progress and elapsed() < until:
        progress = False
        for s in gen.simpler(case["spec"]):
            if elapsed() > until:
                break
            c = dict(case, spec=s)
            m = build_and_run(directory, c)
            if m and m != "slow":
                case, message, progress = c, m, True
                break
    return case, message


def header_text(case):
    return "\n".join(case["names"] + [f"#include <upd/{h}>" for h in case["headers"]]) + "\nint main() {}\n"


def header_problem(directory, case):
    """Compile one order of inclusion; list the macros that it defines"""
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "headers.cpp")
    with open(path, "w") as f:
        f.write(header_text(case))
    code, _, err = run(options(case["conf"]) + ["-fsyntax-only", path], timeout=200)
    if code is None:
        return "slow"
    if code:
        if "error:" not in err:
            raise CheckError(f"{case['conf']['cxx']}: exit {code}: {err[-500:]}")
        return f"{case['conf']['cxx']} -std=c++{case['conf']['std']} rejects {' '.join(case['names'] + case['headers'])}: {errors(err)}"
    code, out, err = run(options(case["conf"]) + ["-E", "-dD", path], timeout=200)
    if code:
        raise CheckError(f"{case['conf']['cxx']}: exit {code}: {err[-500:]}")
    inside, defined = False, {}
    for line in out.splitlines():
        if line.startswith("# ") and '"' in line:
            inside = os.path.realpath(line.split('"')[1]).startswith(os.path.realpath(INCLUDE))
        elif inside and line.startswith(("#define ", "#undef ")):
            defined[line.split()[1].split("(")[0]] = line.startswith("#define")
    for name, yes in defined.items():
        if yes and "upd" not in name.lower() and "unpadded" not in name.lower():
            return f"{' '.join(case['headers'])} defines the macro `{name}` in the program of the user"
    return None


def header_cases(seed, headers, configs):
    r = random.Random(f"headers {seed}")
    for cxx, std in configs:
        conf = dict(cxx=cxx, std=std, whole=[])
        for h in headers:
            yield dict(conf=conf, headers=[h, h], names=[])
        yield dict(conf=conf, headers=headers, names=[])
        yield dict(conf=conf, headers=headers[::-1], names=[])
    while True:
        conf = dict(cxx=r.choice(COMPILERS), std=r.choice(STANDARDS), whole=sorted(r.sample(WHOLE, r.choice([0, 1, 2]))))
        names = [x.replace("{{", "{").replace("}}", "}") for x in r.sample(gen.NAMES, r.choice([0, 3, 8]))]
        yield dict(conf=conf, headers=[r.choice(headers) for _ in range(r.choice([1, 2, 3, 5]))], names=names)


def shrink_headers(directory, case, message, until, elapsed):
    progress = True
    while progress and elapsed() < until:
        progress = False
        for key in ("names", "headers"):
            for i in range(len(case[key])):
                c = dict(case, **{key: case[key][:i] + case[key][i + 1:]})
                m = header_problem(directory, c)
                if m and m != "slow":
                    case, message, progress = c, m, True
                    break
            if progress:
                break
    return case, message


def baseline(directory):
    """The compilers and the clashing declarations work without the library"""
    def one(conf):
        cxx, std = conf
        path = os.path.join(directory, f"names-{cxx}-{std}.cpp")
        names = [x.replace("{{", "{").replace("}}", "}") for x in gen.NAMES]
        with open(path, "w") as f:
            f.write("\n".join(f"namespace n{i} {{ {x} }}" for i, x in enumerate(names)) + "\nint main() {}\n")
        code, _, err = run([cxx, f"-std=c++{std}", "-w", "-fsyntax-only", path], timeout=100)
        if code != 0:
            raise CheckError(f"{conf}: {err[-500:]}")

    common.pool(one, [(c, s) for c in COMPILERS for s in STANDARDS])


def check_units(check):
    quick = not check.thorough
    budget = 75 if quick else 600
    headers = public_headers()
    baseline(check.dir)
    failures, seen, samples, kinds = [], set(), [], {}

    def note(kind, text, nontrivial, sample):
        check.evaluations += 1
        kinds[kind] = kinds.get(kind, 0) + 1
        h = hashlib.sha1(text.encode()).hexdigest()
        if nontrivial and h not in seen:
            seen.add(h)
            if len(samples) < 6 and sum(s.startswith(kind) for s in samples) < 3:
                samples.append(f"{kind}: {sample}"[:1500])

    def one(job):
        n, kind, case = job
        if failures or check.elapsed() > budget:
            return
        directory = check.path(f"{kind}{n}")
        if kind == "headers":
            m = header_problem(directory, case)
        else:
            case = make(case)
            m = build_and_run(directory, case)
        if m == "slow":
            return
        if m:
            until = check.elapsed() + (60 if quick else 120)
            case, m = (shrink_headers if kind == "headers" else shrink)(directory, case, m, until, check.elapsed)
            failures.append((m, kind, case))
        else:
            if kind == "headers":
                note(kind, header_text(case) + repr(case["conf"]), bool(case["headers"]), f"{case['conf']}: {case['names']} {case['headers']}")
            else:
                ops = [o["op"] for tu in case["spec"]["tus"] for o in tu["ops"]]
                for o in ops:
                    kinds["operation " + o] = kinds.get("operation " + o, 0) + 1
                note(kind, repr(gen.files(case["spec"])) + repr(case["conf"]), sum(bool(tu["ops"]) for tu in case["spec"]["tus"]) > 1,
                     f"{case['conf']}: " + gen.files(case["spec"])["unit_1.cpp"])
        shutil.rmtree(directory, ignore_errors=True)

    r = random.Random(f"configs {check.seed}")
    configs = [(c, s) for c in COMPILERS for s in STANDARDS]
    some = configs if not quick else r.sample(configs, 4)
    stream = header_cases(check.seed, headers, some)
    jobs = []
    for n in range(4000 if quick else 60000):
        jobs.append((n, "program", f"{check.seed}/{n}"))
        jobs += [(3 * n + i, "headers", next(stream)) for i in range(3)]
    common.pool(one, jobs)
    for m, kind, case in failures[:5]:
        text = header_text(case) if kind == "headers" else "\n".join(f"// {k}\n{v}" for k, v in gen.files(case["spec"]).items() if k != "support.hpp")
        check.violation(m, kind=kind, case=case, program=text)
    check.distinct = len(seen)
    check.samples = samples
    check.rule = RULE
    check.coverage["classes"] = kinds
    check.coverage["headers"] = headers
    check.assumptions = ["clang++ 18, g++ 13 and g++ 11 and the GNU linker reject ill-formed programs", "the units of a program share the compiler and the standard"]
    return check.finish()


def replay(d, directory):
    return (header_problem if d["kind"] == "headers" else build_and_run)(os.path.join(directory, "replay"), d["case"])
