"""Lifecycle properties: programs from BareFnGen, runs validated by BareFnTrace."""
import json
import os
import random
import re
import signal
import subprocess

import storm
from vlib import (LANES, QUICK, SEED, Check, ToolError, cargo_build, cfg, model_check, must, parallel,
                  printed_json, runner, tla_set, tlc)

ASPECTS = {
    "C02": ["call"], "C03": ["clo"], "C04": ["mem"], "C05": ["wx"], "C06": ["fail"], "C11": ["conv"],
    "C13": ["call", "share"], "C14": ["panic"],
}


CROWDED = ("C02", "C03", "C04", "C11")


def line(c):
    k, t, w = c["c"], c["t"], c.get("w", 0)
    f = [k, t, w]
    if k == "ctor":
        f += [c["kind"], c["cap"], c["store"], c["how"], c["mode"], str(c["uw"]).lower(), c["a"], c.get("cv", 0)]
    elif k == "conv":
        f += [c["how"], c["store"]]
    elif k == "call":
        f += [c["x"]]
    elif k == "drop":
        f += [c["how"]]
    return " ".join(map(str, f))


def simulate(check, cfg_text, num, depth, seed):
    rc, out = tlc("BareFnGen", cfg_text, check.work,
                  extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)], timeout=300)
    progs = printed_json(out)
    if not progs:
        raise ToolError("no programs generated:\n" + out[-3000:])
    # the last step of one walk is printed in all its variants: keep one
    seen, res = set(), []
    for p in progs:
        k = json.dumps(p[:-1])
        if k not in seen:
            seen.add(k)
            res.append(p)
    return res


def enumerate_all(check, cfg_text):
    rc, out = tlc("BareFnGen", cfg_text, check.work, timeout=300)
    if rc != 0:
        raise ToolError("BareFnGen failed:\n" + out[-3000:])
    return printed_json(out)


def text_of(progs):
    out = []
    for p in progs:
        out += [line(c) for c in p if c["c"] != "nop"]
        out.append("---")
    return "\n".join(out) + "\n"


def shared_prologue(p, rng):
    """Free-running programs start with the wrappers every thread calls."""
    pre = [dict(c="ctor", t=0, w=w, kind="fn", cap=rng.choice(["zst", "small", "big", "align"]),
                store="sendsync", how=rng.choice(["try_cc", "cc", "new", "try_thunk", "thunk"]),
                mode="ok", uw=True, a=rng.choice([1, 3, 4])) for w in (10, 11)]
    return pre + p


def execute(bindir, lane, mode, progs, work, name, first=0, count=None, timeout=150):
    """Run the harness once; returns (events, None | description of an unexpected end)."""
    pf, tf = os.path.join(work, name + ".prog"), os.path.join(work, name + ".trace")
    with open(pf, "w") as f:
        f.write(text_of(progs))
    open(tf, "w").close()
    cmd = runner(lane) + [os.path.join(bindir, "life"), mode, pf, tf, str(SEED), str(first),
                          str(len(progs) if count is None else count)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode(errors="replace")[-400:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    evs = []
    with open(tf) as f:
        for l in f:
            try:
                evs.append(json.loads(l))
            except ValueError:
                break
    # what happens before the first program is warming up
    while evs and evs[0]["e"] != "reset":
        evs.pop(0)
    if rc in (3, 4):
        raise ToolError(f"harness {name} ({lane}): exit {rc} {err}")
    ended = bool(evs) and evs[-1]["e"] == "end"
    if ended:
        evs.pop()
    if rc == 0 and ended:
        return evs, None
    if not evs and rc != "timeout":
        raise ToolError(f"harness {name} ({lane}) did not start: exit {rc} {err}")
    if rc == "timeout":
        return evs, {"e": "hang"}
    return evs, {"e": "crash", "sig": abs(rc) if isinstance(rc, int) else 0, "err": err}


def clean(evs):
    """Drop raw addresses; replace them by ranks within each program."""
    out, group = [], []

    def flush():
        pts = sorted({p for e in group if e["e"] == "alloc" and e["ok"] for p in (e["rx"], e["rx"] + e["size"])})
        rank = {p: i + 1 for i, p in enumerate(pts)}
        for e in group:
            if e["e"] == "alloc":
                e = dict(e)
                rx = e.pop("rx")
                e["lo"], e["hi"] = (rank[rx], rank[rx + e["size"]]) if e["ok"] else (0, 0)
            out.append(e)
        group.clear()

    for e in evs:
        if e["e"] == "reset":
            flush()
        group.append(e)
    flush()
    return out


def validate(check, evs, aspects, name, **over):
    """Number of events the specification explains."""
    path = os.path.join(check.work, name + ".nd")
    with open(path, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    rc, out = tlc("BareFnTrace", cfg("BareFnTrace", Aspects=tla_set(aspects), **over), check.work,
                  env_extra={"TRACE": path}, timeout=600)
    for l in out.splitlines():
        if l.startswith('<<"EXPLAINED"'):
            n = int(l.split(",")[1])
            check.count("trace_states_checked", n)
            return n
    raise ToolError("trace validation failed to run:\n" + out[-3000:])


def judge(check, lane, variant, mode, progs, evs, end, aspects, name, **over):
    evs = clean(evs)
    if end:
        evs = evs + [end]
    if not evs:
        evs = [{"e": "hang"}]
    n = validate(check, evs, aspects, name, **over)
    runs = sum(1 for e in evs if e["e"] == "reset")
    if n == len(evs):
        check.count("traces_validated_against_impl", runs)
        check.count("events_validated", len(evs))
        return
    done = [e for e in evs[:n + 1] if e["e"] == "reset"]
    check.count("traces_validated_against_impl", max(0, len(done) - 1))
    i = done[-1]["i"] if done else 0
    start = max((k for k in range(n + 1) if evs[k]["e"] == "reset"), default=0)
    bad = evs[n]
    what = {"crash": f"the process crashed (signal {bad.get('sig')})", "hang": "the program did not finish"}.get(
        bad["e"], f"observed step {json.dumps(bad)} is not allowed by the specification")
    check.violation(f"{lane}/{variant}: {what}", {
        "lane": lane, "variant": variant, "mode": mode, "seed": SEED, "program": text_of([progs[i]]).splitlines(),
        "trace": evs[start:n], "rejected": bad, "aspects": aspects,
        "rerun": f"harness/life built for {lane}; life {mode} <program file> <trace file> {SEED} {i} 1"})


def abort_runs(check, bindir, lane, progs, aspects):
    """Programs that end in a panic that may not unwind: one process each."""
    evs = []
    for k, p in enumerate(progs):
        e, end = execute(bindir, lane, "turn", [p], check.work, f"abort-{lane}-{k}", timeout=60)
        for x in e:
            if x["e"] == "reset":
                x["i"] = k
        if end and end["e"] == "crash" and end["sig"] == signal.SIGABRT:
            last = [x for x in e if x["e"] == "throw"]
            end = {"e": "abort", "t": last[-1]["t"] if last else 1}
        evs += e
        if end:
            evs.append(end)
            if end["e"] != "abort":
                break
        else:
            evs.append({"e": "survived"})
    return evs


# the property that fails in the model when the guards of an aspect are left out
VACUITY = {"call": "RunsOwn", "clo": "ClosureAlive", "mem": "BlocksAccounted", "wx": "PublishedReady",
           "fail": "RefusalIsFinal", "conv": "ConvertsTouchNothing", "share": "NoSharing", "panic": "AbortJustified"}


def vacuity(check, aspect):
    text = cfg("BareFnMC", MaxDepth="1", MaxCalls="1", Wild="TRUE",
               Aspects=tla_set([a for a in VACUITY if a != aspect]))
    text = re.sub(r"(?m)^(INVARIANTS|PROPERTIES) .*$", "", text)
    name = VACUITY[aspect]
    kind = "INVARIANTS" if name in ("ClosureAlive", "BlocksAccounted", "PublishedReady", "NoSharing") else "PROPERTIES"
    rc, out = tlc("BareFnMC", text + f"{kind} {name}\n", check.work, workers=2)
    if "violated" not in out:
        raise ToolError(f"model without the guards of '{aspect}' still satisfies {name}:\n{out[-2000:]}")
    check.count("guard_removals_refuted")


def corruptions(evs, aspect):
    """Copies of an accepted trace with one recorded fact changed."""
    def change(kind, f, pick=lambda e: True):
        for i, e in enumerate(evs):
            if e["e"] == kind and pick(e):
                yield evs[:i] + f(dict(e)) + evs[i + 1:]
                return

    def upd(**kw):
        return lambda e: [dict(e, **{k: v(e[k]) for k, v in kw.items()})]

    table = {
        "call": [("body", upd(c=lambda c: c % 6 + 1)), ("call_e", upd(r=lambda r: r + 1), lambda e: not e["pan"]), ("body", upd(n=lambda n: n + 1))],
        "clo": [("clodrop", lambda e: []), ("clodrop", lambda e: [e, e])],
        "mem": [("release", lambda e: []), ("release", lambda e: [e, e]), ("hdrop", lambda e: []),
                ("release", upd(a=lambda a: a % 3 + 1))],
        "wx": [("flush", lambda e: []), ("prot", upd(acc=lambda a: "rx")), ("flush", upd(hi=lambda h: h - 9))],
        "fail": [("ctor_e", upd(heap=lambda h: h + 8), lambda e: e["res"] != "ok"),
                 ("ctor_e", upd(res=lambda r: "ok"), lambda e: e["res"] != "ok")],
        "conv": [("conv_e", upd(p=lambda p: p + 1), lambda e: e["p"] != 0)],
        "share": [("alloc", lambda e: [e, dict(e, b=16)], lambda e: e["ok"])],
        "panic": [("call_e", upd(pan=lambda b: not b)), ("tok", lambda e: [])],
    }
    for row in table[aspect]:
        yield from change(*row)


def binding(check, evs, aspects):
    """Trace validation must notice a corrupted trace."""
    # enough whole programs
    cut = [i for i, e in enumerate(evs) if e["e"] == "reset"][25:26]
    evs = evs[:cut[0]] if cut else evs
    bad = [c for a in aspects for c in corruptions(evs, a)]
    if not bad:
        raise ToolError("no trace to corrupt")

    def one(k, b):
        if validate(check, b, aspects, f"corrupt-{k}") == len(b):
            raise ToolError("a corrupted trace was accepted")
        check.count("corrupted_traces_rejected")
    parallel([lambda k=k, b=b: one(k, b) for k, b in enumerate(bad)], 3)


def variants(prop):
    """(lane, build) combinations to run; the plain builds have no safe_jit."""
    v = [(l, "debug") for l in LANES]
    if prop in ("C02", "C13") or not QUICK:
        v += [("x86_64", "release")]
    if prop != "C06":
        v += [(l, "plain") for l in PLAIN_LANES if l == "x86_64" or prop == "C02" or not QUICK]
    if not QUICK:
        v += [(l, "release") for l in LANES[1:]]
    return v


PLAIN_LANES = ("x86_64", "aarch64")
WARM = [(l, "debug") for l in LANES] + [("x86_64", "release")] + [(l, "plain") for l in PLAIN_LANES]


def build(lane, var, jobs=4):
    plain = var == "plain"
    return must(cargo_build("life", lane, release=var != "debug", tag={"debug": "", "release": "-r", "plain": "-p"}[var],
                            jobs=jobs, default=not plain, features=["plain"] if plain else ()), f"life {lane} {var}")


def refuses(p):
    return any(c["c"] == "ctor" and c["mode"] == "noreloc" for c in p)


MC = {
    # reachable depth of nesting, calls, threads explored exhaustively
    "quick": dict(MaxDepth="1", MaxCalls="1"),
    "thorough": dict(MaxDepth="2", MaxCalls="2"),
}


def run(prop):
    check = Check(prop)
    aspects = ASPECTS[prop]
    rng = random.Random(SEED)

    nsim = 150 if QUICK else 1200
    jobs = {}

    def gen_sim():
        over = {}
        if prop == "C06":
            over["Modes"] = tla_set(["noalloc", "noreloc", "ok"])
        jobs["sim"] = simulate(check, cfg("BareFnGenSim", **over), nsim, 41, SEED)
        if prop != "C06":
            # nothing is refused for its prologue without safe_jit
            jobs["plain"] = simulate(check, cfg("BareFnGenSim", Modes=tla_set(["noalloc", "ok"])), nsim, 41, SEED)
        if prop in CROWDED:
            # many wrappers alive at the same time
            jobs["crowd"] = simulate(check, cfg("BareFnGenCrowd"), 4 if QUICK else 40, 261, SEED + 3)
        if prop == "C13":
            free = simulate(check, cfg("BareFnGenFree"), nsim, 71, SEED + 1)
            jobs["free"] = [shared_prologue(p, rng) for p in free]
        if prop == "C14":
            ab = simulate(check, cfg("BareFnGenAbort"), 400, 25, SEED + 2)
            jobs["abort"] = [p for p in ab if p[-1]["c"] == "panic" and ends_by_abort(p)][:15 if QUICK else 200]
            # a panic in every kind of closure under every convention
            each = [p for p in enumerate_all(check, cfg("BareFnGenConv")) if p[-1]["c"] == "panic"]
            rng.shuffle(each)
            jobs["abort"] += {(p[0]["kind"], p[0]["cv"]): p for p in each if ends_by_abort(p)}.values()
            jobs["sim"] += [p for p in each if not ends_by_abort(p)]

    def gen_all():
        progs = enumerate_all(check, cfg("BareFnGenAll", **all_overrides(prop)))
        rng2 = random.Random(SEED)
        check.coverage["enumerated_programs"] = len(progs)
        limit = 1500 if QUICK else 20000
        jobs["all"] = progs if len(progs) <= limit else rng2.sample(progs, limit)

    def mc():
        m = dict(MC["quick" if QUICK else "thorough"])
        if prop == "C13":
            m.update(T="{1, 2}", Caps='{"small"}', Kinds='{"fn"}', MaxDepth="1", MaxCalls="1" if QUICK else "2",
                     Uws="{TRUE}", Refs="{FALSE}")
        text = cfg("BareFnMC", **m)
        if prop == "C13" and QUICK:
            text = "\n".join(l for l in text.splitlines() if not l.startswith("PROPERTIES")) + "\n"
        for a in aspects:
            vacuity(check, a)
        dist, gen = model_check("BareFnMC", text, check.work, workers=4)
        check.coverage["states"], check.coverage["transitions"] = dist, gen

    vs = variants(prop)
    built = {}

    def make(lane, var):
        built[lane, var] = build(lane, var)

    parallel([gen_sim, gen_all, mc] + [lambda l=l, v=v: make(l, v) for l, v in vs])

    def go(lane, var):
        b = built[lane, var]
        native = lane in ("x86_64", "i686")
        progs = jobs["plain" if var == "plain" else "sim"] + (jobs["all"] if native else jobs["all"][:len(jobs["all"]) // 4])
        name = f"{lane}-{var}"
        evs, end = execute(b, lane, "turn", progs, check.work, name)
        judge(check, lane, var, "turn", progs, evs, end, aspects, name)
        if (lane, var) == vs[0] and not check.violations:
            binding(check, clean(evs), aspects)
        if "crowd" in jobs:
            progs = jobs["crowd"]
            evs, end = execute(b, lane, "turn", progs, check.work, name + "-crowd")
            judge(check, lane, var, "turn", progs, evs, end, aspects, name + "-crowd", W=tla_set(range(1, 49)),
                  B=tla_set(range(1, 65)))
        if "free" in jobs:
            progs = jobs["free"]
            evs, end = execute(b, lane, "free", progs, check.work, name + "-free")
            judge(check, lane, var, "free", progs, evs, end, aspects, name + "-free")
            check.count("concurrent_runs", len(progs))
        if "abort" in jobs:
            progs = [p for p in jobs["abort"] if var != "plain" or not refuses(p)]
            evs = abort_runs(check, b, lane, progs, aspects)
            judge(check, lane, var, "turn", progs, evs, None, aspects, name + "-abort")
            check.count("abort_runs", len(progs))

    parallel([lambda l=l, v=v: go(l, v) for l, v in vs], 6)
    if prop == "C05":
        caches(check, {lane: built[lane, "debug"] for lane in ("armv7", "thumbv7neon")})
    if prop == "C13":
        storm.run(check)
    check.coverage["lanes"] = [f"{l}-{v}" for l, v in vs]
    check.coverage["samples"] = [text_of([jobs["sim"][0]]).splitlines()[:12], text_of([jobs["all"][0]]).splitlines()]
    check.assumptions = [
        "programs are within the API's own rules (no use after drop, no re-entry into a mutable closure)",
        "the recording allocator satisfies the JitAlloc contract",
        "ARM lanes run under qemu-user, which does not model stale instruction caches",
    ]
    return check.finish()


def caches(check, bins):
    """On 32-bit ARM the built-in allocators have to ask the system; Caches.tla says for what."""
    dist, gen = model_check("Caches", cfg("Caches"), check.work)
    check.coverage["caches_states"], check.coverage["caches_transitions"] = dist, gen
    for fault in ("none", "short", "late", "length"):
        rc, out = tlc("Caches", cfg("Caches", Fault=f'"{fault}"'), check.work)
        if "is violated" not in out:
            raise ToolError(f"Caches with {fault} is not refuted:\n{out[-2000:]}")
        check.count("guard_removals_refuted")
    rc, out = tlc("Caches", cfg("Caches", Show="TRUE"), check.work)
    requests = sorted((r["off"], r["n"]) for r in printed_json(out)[0])

    def explained(evs, name):
        path = os.path.join(check.work, name + ".nd")
        with open(path, "w") as f:
            f.writelines(json.dumps(e) + "\n" for e in evs)
        rc, out = tlc("CachesTrace", cfg("CachesTrace"), check.work, env_extra={"TRACE": path}, timeout=300)
        m = re.search(r'<<"EXPLAINED", (\d+)', out)
        if not m:
            raise ToolError("trace validation failed to run:\n" + out[-3000:])
        return int(m.group(1))

    for lane, b in bins.items():
        pf, tf = (os.path.join(check.work, f"caches-{lane}.{x}") for x in ("txt", "trace"))
        with open(pf, "w") as f:
            f.writelines(f"{o} {n}\n" for o, n in requests)
        p = subprocess.run(runner(lane) + [os.path.join(b, "life"), "caches", pf, tf, str(SEED), "0", "0"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
        with open(tf) as f:
            evs = [json.loads(l) for l in f]
        if p.returncode or not evs or evs.pop()["e"] != "end":
            evs.append({"e": "crash", "sig": p.returncode})
        n = explained(evs, "caches-" + lane)
        check.count("cache_requests", sum(e["e"] == "ask" for e in evs))
        if n < len(evs):
            check.violation(f"{lane}: a built-in allocator does not make the requested range visible",
                            {"lane": lane, "trace": evs[max(0, n - 5):n], "rejected": evs[n]})
            continue
        k = next(k for k, e in enumerate(evs) if e["e"] == "sys")
        bad = evs[:k] + [dict(evs[k], hi=evs[k]["hi"] - 1)] + evs[k + 1:]
        if explained(bad, "caches-bad-" + lane) == len(bad):
            raise ToolError("CachesTrace accepts a range that is one byte short")
        check.count("corrupted_traces_rejected")


def ends_by_abort(p):
    """Does the last command of the program panic in a wrapper whose convention may not unwind?"""
    t = p[-1]["t"]
    stack, uw = [], {}
    for c in p:
        if c["c"] == "ctor":
            uw[c["w"]] = c["uw"]
        if c["t"] != t:
            continue
        if c["c"] in ("call", "drop"):
            stack.append(c["w"])
        if c["c"] in ("ret", "dret", "panic", "dpanic"):
            w = stack.pop()
            if c is p[-1]:
                return not uw[w]
    return False


def all_overrides(prop):
    if prop == "C06":
        return dict(Modes=tla_set(["ok", "noalloc", "noreloc"]), Ctors=tla_set(["try_cc", "cc", "try_thunk", "thunk", "new"]),
                    MaxLen="2", Caps=tla_set(["zst", "small", "big", "align"]),
                    Stores=tla_set(["any", "send", "sync", "sendsync"]))
    if prop == "C04":
        return dict(As=tla_set([1, 2]), Kinds=tla_set(["once", "fn"]))
    if prop == "C11":
        return dict(Stores=tla_set(["sendsync", "send"]), MaxLen="4")
    return {}
