"""Allocator handles (Handles.tla) and the built-in allocators (Blocks.tla)."""
import json
import os
import re
import subprocess

import vlib
from vlib import QUICK, SEED, Check, ToolError, cargo_build, cfg, must, parallel, printed_json, runner, tla_set, tlc

HANDLES = ["direct", "ref", "refref", "mut", "box", "rc", "arc", "boxbox", "boxref", "arcbox", "refrc", "refarcrefbox",
           "pin", "pinbox", "cow", "cowned", "cell", "cellmut", "guard", "rwguard", "lazy", "manual", "assert", "pick",
           "refpick"]
SHARED = ["ref", "refref", "arc", "boxref", "arcbox", "guard", "rwguard", "lazy", "pick"]
GLOBAL = ["global", "refglobal", "boxglobal"]

HANDLE_FAULTS = ["twice", "drop", "mangle", "invent", "other", "mask"]
BLOCK_FAULTS = ["leak", "overlap", "views", "short"]


def models(check):
    big = dict(MaxReqs="3", Args="{1}") if not QUICK else {}
    d1, g1 = vlib.model_check("Handles", cfg("Handles", **big), check.work, workers=3)
    d2, g2 = vlib.model_check("Blocks", cfg("Blocks", **({} if QUICK else dict(MaxBlocks="3", T="{1}"))), check.work, workers=3)
    check.coverage["states"], check.coverage["transitions"] = d1 + d2, g1 + g2
    for m, fs in (("Handles", HANDLE_FAULTS), ("Blocks", BLOCK_FAULTS)):
        for f in fs:
            rc, out = tlc(m, cfg(m, Fault=f'"{f}"'), check.work, workers=2)
            if "is violated" not in out:
                raise ToolError(f"{m} with fault '{f}' is not refuted:\n{out[-2000:]}")
            check.count("faults_refuted")


def gen(check, module, num=0, depth=0, seed=1, **over):
    extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)] if num else []
    rc, out = tlc(module, cfg(module, **over), check.work, extra=extra, timeout=300)
    progs = printed_json(out)
    if not progs or rc != 0 and not num:
        raise ToolError(f"{module}: {out[-3000:]}")
    return progs


def text_of(progs, fields):
    return "".join("".join(" ".join(str(c[f]) for f in fields) + "\n" for c in p) + "---\n" for p in progs)


H_FIELDS = ["t", "h", "a", "op", "size", "ans", "ptr", "acc"]
B_FIELDS = ["op", "t", "own", "of", "slot", "size"]


def execute(check, bindir, lane, mode, text, name):
    pf, tf = os.path.join(check.work, name + ".prog"), os.path.join(check.work, name + ".trace")
    with open(pf, "w") as f:
        f.write(text)
    open(tf, "w").close()
    try:
        p = subprocess.run(runner(lane) + [os.path.join(bindir, "handle"), mode, pf, tf], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
        rc, err = p.returncode, p.stderr.decode(errors="replace")[-600:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    evs = []
    with open(tf) as f:
        for line in f:
            try:
                evs.append(json.loads(line))
            except ValueError:
                break
    if rc == 4 and evs:
        evs[-1]["err"] = err
        return evs
    if rc == 3 or not evs:
        raise ToolError(f"handle harness ({name}): exit {rc} {err}")
    if evs[-1]["e"] == "end" and rc == 0:
        evs.pop()
    else:
        evs.append({"e": "hang" if rc == "timeout" else "crash", "status": rc, "err": err})
    return evs


def ranks(evs):
    """Addresses become ranks among the addresses of their view, block numbers restart with every program."""
    pts = {"rx": set(), "rw": set()}
    for e in evs:
        for v in pts:
            if v in e:
                pts[v] |= {e[v], e[v] + e["size"]}
    rank = {v: {p: i for i, p in enumerate(sorted(s))} for v, s in pts.items()}
    out = []
    for e in evs:
        if "rx" in e:
            e = dict(e)
            x, w = e.pop("rx"), e.pop("rw")
            e.update(xlo=rank["rx"][x], xhi=rank["rx"][x + e["size"]], wlo=rank["rw"][w], whi=rank["rw"][w + e["size"]])
        out.append(e)
    return out


def validate(check, module, evs, name):
    path = os.path.join(check.work, name + ".nd")
    with open(path, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    rc, out = tlc(module, cfg(module), check.work, env_extra={"TRACE": path}, timeout=600)
    os.remove(path)
    for line in out.splitlines():
        if line.startswith('<<"EXPLAINED"'):
            n = int(line.split(",")[1])
            check.count("trace_states_checked", n)
            return n
    raise ToolError(f"{module} failed to run:\n{out[-3000:]}")


def judge(check, module, build, mode, progs, evs, name):
    n = validate(check, module, evs, name)
    done = [e for e in evs[:n + 1] if e["e"] == "reset"]
    if n == len(evs):
        check.count("traces_validated_against_impl", len(done))
        check.count("events_validated", n)
        return True
    check.count("traces_validated_against_impl", max(0, len(done) - 1))
    start = max((k for k in range(n + 1) if evs[k]["e"] == "reset"), default=0)
    i = evs[start].get("i", 0)
    bad = evs[n]
    what = {"crash": f"the process died ({bad.get('status')}) {bad.get('err', '')[-200:]}", "hang": "the program did not finish",
            "panic": "a request panicked: " + bad.get("err", "")}.get(
        bad["e"], f"observed step {json.dumps(bad)} is not allowed by the specification")
    check.violation(f"{build}: {what}", {"build": build, "mode": mode, "program": progs[i] if i < len(progs) else [],
                                         "trace": evs[max(start, n - 60):n], "rejected": bad})
    return False


def corrupted(evs, rows):
    for kind, f in rows:
        for i, e in enumerate(evs):
            if e["e"] == kind:
                c = f(dict(e))
                if c is not None:
                    yield evs[:i] + c + evs[i + 1:]
                    break


def binding(check, module, evs, rows, name):
    cut = [i for i, e in enumerate(evs) if e["e"] == "reset"][30:31]
    evs = evs[:cut[0]] if cut else evs
    bad = list(corrupted(evs, rows))
    if len(bad) < len(rows):
        raise ToolError("no trace to corrupt")
    for k, b in enumerate(bad):
        if validate(check, module, b, f"corrupt-{name}-{k}") == len(b):
            raise ToolError(f"a corrupted trace was accepted ({module} {k})")
        check.count("corrupted_traces_rejected")


H_ROWS = [("got", lambda e: []), ("got", lambda e: [e, e]), ("got", lambda e: [dict(e, a=3 - e["a"])]),
          ("got", lambda e: [dict(e, arg=e["arg"] + ["0"])]),
          ("ret", lambda e: [dict(e, ans=["err"])] if e["ans"] != ["err"] else None)]
B_ROWS = [("look", lambda e: [dict(e, v=-1)]), ("gave", lambda e: [dict(e, ok=False)]),
          ("mapped", lambda e: [dict(e, kb=1 << 20)]),
          ("take", lambda e: [e, dict(e, b=100000)])]


def known_histories():
    """Histories of FINDINGS.txt that are known to fail: [(program, what)]."""
    res = []
    with open(os.path.join(vlib.VERIF, "FINDINGS.txt")) as f:
        for m in re.finditer(r"(?m)^known: property=C18 history=(\S+) (.*)$", f.read()):
            prog, n = [], 0
            for step in m.group(1).split(","):
                if step[0] == "-":
                    prog.append(dict(op="give", t=1, own="global", of=1, slot=int(step[1:]), size=0))
                    continue
                size, _, times = step.partition("*")
                for _ in range(int(times or 1)):
                    n += 1
                    prog.append(dict(op="take", t=1, own="global", of=1, slot=n, size=int(size)))
            res.append((prog, m.group(2)))
    return res


def known(check, bindir, lane, name):
    """The listed histories, and nothing else, may end in an overlap (or in the overflow that leads to it)."""
    for k, (prog, what) in enumerate(known_histories()):
        evs = ranks(execute(check, bindir, lane, "blocks", text_of([prog], B_FIELDS), f"{name}-known{k}"))
        n = next((i for i, e in enumerate(evs) if e["e"] == "reset" and e["i"] == 1), len(evs))
        evs = evs[:n]
        ok = validate(check, "BlocksTrace", evs, f"{name}-known{k}")
        check.count("known_histories_replayed")
        if ok == n:
            continue
        at = [e for e in evs[:ok + 1] if e["e"] == "take"]
        last = len(at) == sum(c["op"] == "take" for c in prog)
        overlap = evs[ok]["e"] == "take" and evs[ok]["ok"] and last
        overflow = evs[ok]["e"] == "panic" and "jit-allocator2" in evs[ok]["err"] and "shift left with overflow" in evs[ok]["err"]
        if overlap or overflow:
            if what not in check.known:
                check.known.append(what)
        else:
            judge(check, "BlocksTrace", f"{lane} known history {k}", "blocks", [prog], evs, f"{name}-k{k}")


def warm():
    return [[lambda l=l, f=f: build(l, f)] for l, f in builds()]


def builds():
    lanes = ["x86_64", "i686", "aarch64", "armv7"]
    res = [(l, f) for l in lanes for f in ("builtin", "custom")] + [("x86_64", "bare"), ("x86_64", "block")]
    return res


def build(lane, feat):
    return must(cargo_build("handle", lane, features=[feat], tag="-" + feat, jobs=3), f"handle {lane} {feat}")


def run(prop):
    check = Check(prop)
    vs = builds()
    built, progs = {}, {}

    def make(lane, feat):
        built[lane, feat] = build(lane, feat)

    def programs():
        n = 120 if QUICK else 1500
        for name, hs, shared in (("plain", HANDLES, SHARED), ("custom", HANDLES + GLOBAL, SHARED + GLOBAL)):
            sets = dict(Hs=tla_set(hs), Shared=tla_set(shared))
            progs[name, "all"] = gen(check, "HandlesGen", **sets)
            progs[name, "walk"] = gen(check, "HandlesGen", n, 22, SEED, Ts="{1, 2, 3}", Len0="20", Walk="TRUE", **sets)
        b = 10 if QUICK else 80
        large = tla_set([1, 64, 65, 130, 200, 1000, 4096, 5000, 70000, 300000])
        for name, owners in (("builtin", '{"global", "thread"}'), ("bare", '{"global"}')):
            progs[name, "turn"] = gen(check, "BlocksGen", b, 62, SEED, Owners=owners) + \
                gen(check, "BlocksGen", b, 62, SEED + 2, Owners=owners, Stack="TRUE", Sizes=large)
            progs[name, "crowd"] = gen(check, "BlocksGen", b, 62, SEED + 1, Owners=owners, Apart0="TRUE")

    parallel([programs, lambda: models(check)] + [lambda v=v: make(*v) for v in vs])

    def go(lane, feat):
        b = built[lane, feat]
        name = f"{lane}-{feat}"
        jobs = []
        k = "custom" if feat in ("custom", "block") else "plain"
        ps = progs[k, "all"] + progs[k, "walk"]
        for mode, p in (("turn", ps), ("free", progs[k, "walk"])):
            evs = execute(check, b, lane, mode, text_of(p, H_FIELDS), f"{name}-{mode}")
            jobs.append(("HandlesTrace", mode, p, evs, H_ROWS))
        if k == "plain":
            for mode in ("turn", "crowd"):
                p = progs[feat, mode]
                if lane in ("aarch64", "armv7"):
                    p = p[::4]
                evs = execute(check, b, lane, "blocks" if mode == "turn" else "crowd", text_of(p, B_FIELDS), f"{name}-b{mode}")
                top = max((e["kb"] for e in evs if e["e"] == "mapped"), default=0)
                check.coverage.setdefault("mapped_kb", {})[f"{name}-{mode}"] = top
                jobs.append(("BlocksTrace", mode, p, ranks(evs), B_ROWS))
            known(check, b, lane, name)
        for n, (module, mode, p, evs, rows) in enumerate(jobs):
            ok = judge(check, module, f"{name} {mode}", mode, p, evs, f"{name}-{n}")
            if ok and (lane, feat) == vs[0] and mode == "turn":
                binding(check, module, evs, rows, f"{n}")
        if len(check.coverage.setdefault("samples", [])) < 5:
            check.coverage["samples"].append({"build": name, "program": ps[-1][:4]})

    parallel([lambda v=v: go(*v) for v in vs], 4)
    return check.finish()
