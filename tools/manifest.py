#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from run import GROUPS  # noqa: E402

TECH = {
    "life": "TLA+ specification (BareFn.tla) model checked with TLC; programs generated from the specification "
            "(BareFnGen.tla) are run on the library for every target and the recorded runs validated by TLC (BareFnTrace.tla)",
    "reloc": "TLA+ specification of thunk prologues and their relocation (Reloc.tla, Ext.tla, Place.tla) model checked with TLC; "
             "prologues and placements generated from it are relocated by the library, run, and the machine state compared "
             "with the one the specification computes and with that of the original prologue run in its place",
    "sig": "TLA+ specification of calls through generated functions (Call.tla) and of argument placement (Abi.tla) model checked "
           "with TLC; signatures and uses generated from it (CallGen.tla) are compiled, called on every target, and the recorded "
           "calls validated by TLC (CallTrace.tla)",
    "probe": "TLA+ specification of which programs the compiler must accept (Markers.tla, Borrow.tla) model checked with TLC; "
             "every state and step it allows or forbids is turned into a program and compiled against the library",
    "handle": "TLA+ specification of allocator handles (Handles.tla) and of memory blocks (Blocks.tla) model checked with TLC; "
              "request histories generated from them run through every handle type and the built-in allocators on several "
              "targets, and the recorded histories validated by TLC (HandlesTrace.tla, BlocksTrace.tla)",
}
NOTE = {
    "life": "exhaustive on the model for the configured bounds; the library is exercised on generated programs only",
    "reloc": "exhaustive on the model for the configured bounds; the library is exercised on all one-instruction, many "
             "two-instruction and random longer prologues",
    "sig": "exhaustive on the model for the configured bounds; the library is exercised on generated signatures that cover all "
           "conventions and arities but sample argument types",
    "probe": "exhaustive on the model for the configured bounds, and every state and step of it is compiled",
    "handle": "exhaustive on the model for the configured bounds; every single request through every handle type and sampled "
              "longer histories are run on the library",
}
EXTRA = {
    "C05": "; what the allocator asks of the system is specified in Caches.tla and its recorded requests validated by "
           "CachesTrace.tla",
    "C13": "; threads on the global allocator are specified in Storm.tla and their recorded runs validated by StormTrace.tla",
    "C16": "; accepted and refused declarations are specified in Declare.tla and compiled against the library",
}
MISSING = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    mod = {p: m for m, ps in GROUPS.items() for p in ps}
    checks = []
    for p in props:
        if p in mod:
            checks.append({
                "property": p,
                "quick_cmd": f"python3 tools/run.py {p}",
                "thorough_cmd": f"python3 tools/run.py {p}",
                "technique": TECH[mod[p]] + EXTRA.get(p, ""),
                "level": "model_checking",
                "level_note": NOTE[mod[p]],
            })
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": MISSING.get(p, "check not built yet")} for p in props if p not in mod],
        "notes": "Run from /verif. Findings are listed in FINDINGS.txt.",
    }
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
