"""Threads that use wrappers of the global allocator at the same time (Storm.tla)."""
import vlib
from handle import binding, execute, gen, judge, text_of
from vlib import QUICK, SEED, ToolError, cargo_build, cfg, must, parallel, tlc

FAULTS = ["hold", "unlocked", "early", "refuse", "keep"]
FIELDS = ["op", "t", "w", "n"]
ROWS = [("called", lambda e: [dict(e, n=e["n"] + 1)]), ("called", lambda e: [dict(e, bad=1)]), ("destroyed", lambda e: []),
        ("destroyed", lambda e: [e, e]), ("made", lambda e: [dict(e, ok=False)]), ("mapped", lambda e: [dict(e, kb=1 << 20)]),
        ("gone", lambda e: []), ("made", lambda e: [e, dict(e, w=40)])]
BUILDS = [("x86_64", "builtin", False), ("x86_64", "builtin", True), ("x86_64", "bare", False), ("i686", "builtin", False),
          ("aarch64", "builtin", False)]


def build(lane, feat, rel):
    return must(cargo_build("handle", lane, features=[feat], release=rel, tag="-" + feat + ("-r" if rel else ""), jobs=3),
                f"handle {lane} {feat}")


def warm():
    return [[lambda v=v: build(*v)] for v in BUILDS if v[2]]     # the others are those of handle


def models(check):
    d, g = vlib.model_check("Storm", cfg("Storm", **({"Deep": "1"} if QUICK else {})), check.work, workers=3)
    check.count("storm_states", d)
    check.count("storm_transitions", g)
    for f in FAULTS:
        rc, out = tlc("Storm", cfg("Storm", Fault=f'"{f}"'), check.work, workers=2)
        if "is violated" not in out:
            raise ToolError(f"Storm with fault '{f}' is not refuted:\n{out[-2000:]}")
        check.count("storm_faults_refuted")


def places(evs):
    """Addresses become numbers."""
    seen = {}
    return [dict(e, p=seen.setdefault(e["p"], len(seen) + 1)) if "p" in e else e for e in evs]


def run(check):
    """Part of C13."""
    built, progs = {}, {}
    n = 30 if QUICK else 200

    def programs():
        for mode, shares in (("storm", "TRUE"), ("storm-mut", "FALSE")):
            progs[mode] = gen(check, "StormGen", n, 52, SEED, Shares=shares)
            # the first thing any thread does is to use the allocator
            progs[mode, "first"] = gen(check, "StormGen", n, 10, SEED + 1, Shares=shares, Len0="8")

    def make(v):
        built[v] = build(*v)

    parallel([programs, lambda: models(check)] + [lambda v=v: make(v) for v in BUILDS])

    def go(v):
        lane, feat, rel = v
        name = f"{lane}-{feat}" + ("-release" if rel else "")
        for mode in ("storm", "storm-mut"):
            cut = 4 if lane == "aarch64" else 1
            ps = progs[mode][::cut]
            evs = places(execute(check, built[v], lane, mode, text_of(ps, FIELDS), f"{name}-{mode}"))
            check.count("storm_runs", len(ps))
            top = max((e["kb"] for e in evs if e["e"] == "mapped"), default=0)
            check.coverage.setdefault("storm_mapped_kb", {})[f"{name}-{mode}"] = top
            if judge(check, "StormTrace", f"{name} {mode}", mode, ps, evs, f"{name}-{mode}") and v == BUILDS[0]:
                binding(check, "StormTrace", evs, ROWS, mode)
            # every one of these in a process of its own
            ps, all_ = progs[mode, "first"][::cut], []
            for k, p in enumerate(ps):
                evs = places(execute(check, built[v], lane, mode, text_of([p], FIELDS), f"{name}-{mode}-first"))
                all_ += [dict(e, i=k + e["i"]) if e["e"] == "reset" else e for e in evs]
                if evs[-1]["e"] in ("crash", "hang", "panic"):
                    break
            check.count("storm_first_uses", len(ps))
            judge(check, "StormTrace", f"{name} {mode} (first use)", mode, ps, all_, f"{name}-{mode}-first")

    parallel([lambda v=v: go(v) for v in BUILDS], 3)
