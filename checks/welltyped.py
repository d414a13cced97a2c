"""C28: generated pairs of programs, one well-typed and one with a single type fault, given to the compilers"""
import hashlib
import os
import random
import sys

from . import common
from .common import CheckError, INCLUDE, run
from .native import DEPTH

sys.path.insert(0, os.path.join(common.VERIF, "gen"))
import welltyped as gen  # noqa: E402

CONFIGS = [(cxx, std) for cxx in ("clang++-18", "g++-13", "g++-11") for std in (11, 14, 17, 20)]
RULE = "one case = a well-typed program that must compile and its single-fault mutation that must not, given to one compiler and standard; " \
       "non-trivial: all of them"


def text(decl, *bodies, head=gen.HEAD):
    return head + decl + "\n" + "".join(f"void body_{i}() {{ {b} }}\n" for i, b in enumerate(bodies))


def options(conf):
    cxx, std = conf
    return [cxx, f"-std=c++{std}", "-w", "-I" + INCLUDE] + (DEPTH if cxx.startswith("clang") else [])


def precompile(directory, conf):
    """Compile the headers once: options to use the result"""
    path = os.path.join(directory, "pch-" + "-".join(map(str, conf)))
    os.makedirs(path)
    header = os.path.join(path, "head.hpp")
    with open(header, "w") as f:
        f.write(gen.HEAD)
    clang = conf[0].startswith("clang")
    out = header + (".pch" if clang else ".gch")
    code, _, err = run(options(conf) + ["-x", "c++-header", header, "-o", out], timeout=120)
    if code is None or code and "error:" not in err:
        raise CheckError(f"{conf}: {err[-500:]}")
    if code:
        return None, "; ".join(l.split("error:")[1].strip() for l in err.splitlines() if "error:" in l)[:400]
    return (["-include-pch", out] if clang else ["-include", header]), ""


def accepts(path, source, conf, pch=None):
    """Whether the compiler accepts the program; None if it cannot tell"""
    with open(path, "w") as f:
        f.write((source[len(gen.HEAD):] if pch else source))
    cxx, std = conf
    cmd = options(conf) + ["-fsyntax-only"] + (pch or []) + [path]
    code, out, err = run(cmd, timeout=120)
    if code is None:
        return None, "timeout"
    if code != 0 and "error:" not in err:
        raise CheckError(f"{cxx}: exit {code}: {err[-500:]}")
    return code == 0, "; ".join(l.split("error:")[1].strip() for l in err.splitlines() if "error:" in l)[:400]


def in_namespaces(cases):
    return gen.HEAD + "".join(f"namespace case_{i} {{\n{c['decl']}\nvoid body() {{ {c['good']} }}\n}}\n" for i, c in enumerate(cases))


def make(seed, conf):
    kind, decl, good, bad, made = gen.draw(seed, conf[1])
    return dict(kind=kind, decl=decl, good=good, bad=bad, choices=made)


def again(kind, choices, conf):
    decl, good, bad, made = gen.render(kind, conf[1], gen.Choices(choices))
    return dict(kind=kind, decl=decl, good=good, bad=bad, choices=made)


def wrong(directory, name, case, conf, which=("good", "bad"), pch=None):
    """The violation that the pair shows, or None"""
    path = os.path.join(directory, name + ".cpp")
    if "good" in which:
        ok, why = accepts(path, text(case["decl"], case["good"]), conf, pch)
        if ok is False:
            return "good", f"{conf[0]} -std=c++{conf[1]} rejects a well-typed program ({case['kind']}): `{case['good']}`: {why}"
    if "bad" in which:
        ok, _ = accepts(path, text(case["decl"], case["bad"]), conf, pch)
        if ok:
            return "bad", f"{conf[0]} -std=c++{conf[1]} accepts an ill-typed program ({case['kind']}): `{case['bad']}` instead of `{case['good']}`"
    return None


def shrink(directory, name, case, conf, problem, deadline, elapsed):
    """Replace choices by simpler ones while the same problem shows, the other program of the pair being right"""
    best, message = case, problem[1]

    def attempt(choices):
        nonlocal best, message
        c = again(case["kind"], choices, conf)
        if c["choices"] == best["choices"]:
            return False
        p = wrong(directory, name, c, conf)
        if p and p[0] == problem[0]:
            best, message = c, p[1]
            return True
        return False

    progress = True
    while progress and elapsed() < deadline:
        progress = False
        for i in range(len(best["choices"])):
            if i < len(best["choices"]) and best["choices"][i] and elapsed() < deadline:
                progress |= attempt(best["choices"][:i] + [0] + best["choices"][i + 1:])
    return best, message


def check_welltyped(check):
    quick = not check.thorough
    budget = 70 if quick else 700
    most = 3000 if quick else 40000
    r = random.Random(f"welltyped {check.seed}")
    kinds, seen, samples = {}, set(), []
    failures = []

    headers = dict(zip(CONFIGS, common.pool(lambda conf: precompile(check.dir, conf), CONFIGS)))
    for conf, (flags, why) in headers.items():
        if flags is None:
            check.violation(f"{conf[0]} -std=c++{conf[1]} rejects the headers: {why}", kind="welltyped", conf=list(conf), which="good", program=gen.HEAD,
                            case=dict(kind="headers", decl="", good="", bad="not_declared();", choices=[]))
    if check.violations:
        return check.finish()

    def batch(b):
        """Cases of one configuration, the good programs compiled together"""
        n, conf = b
        if check.elapsed() > budget or failures:
            return []
        cases = [make(f"{check.seed}/{n}/{i}", conf) for i in range(10)]
        pch = headers[conf][0]
        directory = check.path(f"b{n}")
        os.makedirs(directory, exist_ok=True)
        ok, why = accepts(os.path.join(directory, "all.cpp"), in_namespaces(cases), conf, pch)
        problem = None
        if not ok:
            for c in cases:
                problem = wrong(directory, "one", c, conf, ("good",), pch)
                if problem:
                    break
        done = []
        if not problem:
            if ok is None:
                return []
            for c in cases:
                if check.elapsed() > budget + 10:
                    break
                problem = wrong(directory, "one", c, conf, ("bad",), pch)
                done.append(c)
                if problem:
                    break
            if not ok and not problem:
                raise CheckError(f"programs are rejected together, not one by one: {conf}: {why}")
        problem = problem and wrong(directory, "one", c, conf)  # without the precompiled header
        if problem:
            c, message = shrink(directory, "small", c, conf, problem, check.elapsed() + 40, check.elapsed)
            failures.append((message, c, conf, problem[0]))
        return [(c, conf) for c in done]

    order = []
    while len(order) * 10 < most:
        block = list(CONFIGS)
        r.shuffle(block)
        order += block
    for done in common.pool(batch, list(enumerate(order))):
        for c, conf in done:
            check.evaluations += 1
            kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
            h = hashlib.sha1(repr((c["decl"], c["good"], c["bad"], conf)).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(samples) < 6 and c["kind"] not in [s[0] for s in samples]:
                    samples.append((c["kind"], f"{conf}: {c['kind']}: {c['decl']} // good: {c['good']} // bad: {c['bad']}"[:1000]))
    for message, c, conf, which in failures[:5]:
        check.violation(message, kind="welltyped", case=c, conf=list(conf), which=which, program=text(c["decl"], c["good" if which == "good" else "bad"]))
    check.distinct = len(seen)
    check.samples = [s for _, s in samples]
    check.rule = RULE
    check.coverage["classes"] = kinds
    check.coverage["configurations"] = [f"{a} -std=c++{b}" for a, b in CONFIGS]
    check.assumptions = ["clang++ 18, g++ 13 and g++ 11 reject ill-formed programs"]
    return check.finish()


def replay(d, directory):
    problem = wrong(directory, "replay", d["case"], tuple(d["conf"]))
    return problem[1] if problem else None
