#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; python3 tools/mkmanifest.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = "property-based testing: seeded generated programs and histories, reference-model oracle, shrinking; ASan+UBSan"
TECH = {
    "C05": "property-based testing: generated formats, storages and overlaps, value model; ASan+UBSan",
    "C07": "differential property-based testing: one generated program and history, many configurations",
    "C12": "property-based testing: generated call sequences, direct call as oracle; ASan+UBSan",
    "C13": "stateful property-based testing against a state-machine model; ASan+UBSan",
    "C14": "stateful property-based testing against a state-machine model; ASan+UBSan",
    "C15": "stateful property-based testing with garbage streams, exact-size heap buffers, ASan as oracle and a size model",
    "C16": "stateful property-based testing: byte-level interleavings of input and output against a two-queue model",
    "C17": "stateful property-based testing: replacement histories against a table of callables",
    "C18": "stateful property-based testing: moves and copies at random points against the state-machine model",
    "C20": "stateful property-based testing with injected exceptions",
    "C22": "stateful property-based testing with an allocation-counting oracle (malloc interposed)",
    "C23": "stateful property-based testing with instance counters; ASan",
    "C24": "property-based testing (Hypothesis) of generated extension modules against a reference encoder",
    "C25": "stateful property-based testing (Hypothesis) of generated extension modules against a state-machine model",
    "C26": "property-based testing (Hypothesis) with generated interleavings of asynchronous calls",
    "C27": "stateful property-based testing (Hypothesis) of edit and import histories in scratch directories",
    "C28": "generated well-typed programs and single-fault mutants, compiled; well-typedness by construction as oracle",
    "C29": "stateful property-based testing with generated interruptions (nested executions) and threads, each against the models of the "
           "other properties; ASan+UBSan, ThreadSanitizer",
    "C30": "generated programs of several translation units, compiled, linked and run, against a reference model of their output; generated "
           "orders of inclusion, compiled",
}
CLAIMED = os.environ.get("CLAIMED", "").split(",") if os.environ.get("CLAIMED") else None
NOT_APPLICABLE = {}

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NOT_APPLICABLE or (CLAIMED and p not in CLAIMED):
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction")))
        continue
    note = "Explores generated programs (type lists, signatures, keyrings, formats, configurations) and generated cases on each; it never " \
           "establishes absence of violations. Trusts the reference model in harness/, the compilers and sanitizers; " \
           "the platform is little-endian two's complement x86-64."
    if p in ("C24", "C25", "C26", "C27"):
        note = "Explores generated keyrings/histories against a Python reference model; it never establishes absence of violations. Trusts " \
               "CPython, pybind11, Hypothesis and the model in checks/."
    if p == "C28":
        note = "Explores generated (well-typed, ill-typed) program pairs with -fsyntax-only in several compilers and standards; never " \
               "establishes absence of violations."
    if p == "C30":
        note = "Explores generated programs, orders of inclusion and compiler configurations against a Python reference model; never " \
               "establishes absence of violations. Trusts the compilers, the linker and the model in checks/wire.py."
    checks.append(dict(property=p, quick_cmd=f"python3 run.py check {p}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py check {p}",
                       technique=TECH.get(p, NATIVE), level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="No hook was needed in /repo: every check uses the public API only. Replay a failure with 'python3 run.py replay <file>'.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
