"""Calls: signatures of CallGen.tla run through the library, the recorded calls judged by CallTrace.tla."""
import json
import os
import random
import re
import shutil
import subprocess

import probe
import vlib
from reloc import STATIC, mix
from vlib import Check, LANES, QUICK, SEED, ToolError

M64 = (1 << 64) - 1
ARM = ("armv7", "thumbv7neon")
RUST = {"ptr": "*const u8", "slice": "&'static [u8]", "opt": "Option<std::num::NonZeroU32>", "own": "Own",
        "()": "()"}
SCALARS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "f32", "f64", "ptr", "bool", "char"]
WIDE = ["u128", "slice", "opt", "own", "S1", "S2", "S3", "S4", "S5", "S6", "S7"]
STORES = {"any": "dyn Any", "send": "dyn Send", "sync": "dyn Sync", "sendsync": "dyn Send + Sync"}
KINDS = ["once", "mut", "fn"]
WRAP = {"once": "BareFnOnceAny", "mut": "BareFnMutAny", "fn": "BareFnAny"}
UNTYPED = {"once": "UntypedBareFnOnce", "mut": "UntypedBareFnMut", "fn": "UntypedBareFn"}
SHORT = {"C": "new_c", "Rust": "new_rust", "system": "new_system", "efiapi": "new_efiabi", "sysv64": "new_sysv64",
         "aapcs": "new_aapcs"}
SUFFIX = {"any": "", "send": "_send", "sync": "_sync", "sendsync": "_send_sync"}
MAKE = {"once": "make_once", "mut": "make_mut", "fn": "make"}

HEAD = """use crate::{jit::Bump, log::*, val::*};
use closure_ffi::{cc, thunk_factory, traits::*, *};
use closure_ffi::traits::Any;
use std::hint::black_box;
"""


def conventions(lane):
    own = {"x86_64": ["sysv64", "win64"], "i686": ["fastcall", "stdcall", "cdecl", "thiscall"], "aarch64": []}
    plain = ["C", "system"] + own.get(lane, ["aapcs"])
    return plain + [c + "-unwind" for c in plain] + ["efiapi", "Rust"]


def marker(cc):
    return "".join(w.capitalize() for w in cc.split("-"))


def rust(t):
    return RUST.get(t, t)


def signature(c):
    return f'unsafe extern "{c["cc"]}" fn({", ".join(map(rust, c["sig"]))}) -> {rust(c["ret"])}'


def generate(work, lane, rounds, **over):
    """Signatures from the specification; VERIF_SEED decides TLC's random choices."""
    text = vlib.cfg("CallGen", Lane=f'"{lane}"', Rounds=rounds,
                    **{k: vlib.tla_set(v) if isinstance(v, (list, range)) else str(v).upper() for k, v in over.items()})
    rc, out = vlib.tlc("CallGen", text, work, extra=["-seed", str(SEED), "-fp", "1"])
    if rc != 0:
        raise ToolError("CallGen: " + out[-3000:])
    cases = vlib.printed_json(out)
    if not cases:
        raise ToolError("CallGen printed nothing: " + out[-2000:])
    for i, c in enumerate(cases):
        c["id"], c["lane"] = i, lane
        # rustc itself mishandles 128-bit integers where the callee removes the arguments
        if lane == "i686" and c["cc"].replace("-unwind", "") in ("stdcall", "fastcall", "thiscall"):
            c["sig"] = ["u64" if t == "u128" else t for t in c["sig"]]
    return cases


def names(n):
    return [f"a{i}" for i in range(n)]


def digest_list(n):
    return "&[" + ", ".join(f"D::d(&a{i})" for i in range(n)) + "]"


def body(c, packed=False):
    """The closure: logs what it gets and what it gives back."""
    n = len(c["sig"])
    args = ", ".join(f"a{i}: {rust(t)}" for i, t in enumerate(c["sig"]))
    if packed:
        tup = "".join(f"a{i}, " for i in range(n))
        tys = "".join(rust(t) + ", " for t in c["sig"])
        args = f"({tup}): ({tys})"
    count = c["kind"] != "fn" and c["cap"] > 0
    pre = f'let cap = Cap::<{c["cap"]}>::new({c["id"]}); let mut n = 0u64;'
    if c["kind"] == "once":
        keep = "let cap = cap;"
    else:
        keep = "let cap = &cap;"
    step = "let ok = ok && n == calls(); n += 1;" if count else ""
    return pre, (f'move |{args}| -> {rust(c["ret"])} {{ {keep} let ok = cap.ok({c["id"]}); {step} '
                 f'enter({c["id"]}, ok, {digest_list(n)}); '
                 f'let r = <{rust(c["ret"])}>::make(mix({c["id"]}, calls() + 40)); leave({c["id"]}, r.d()); r }}')


def thunk(c, f_packed, f, maker):
    """An expression making a thunk."""
    F = "F"
    if maker == "factory":
        return f'thunk_factory::{MAKE[c["kind"]]}{SUFFIX[c["store"]]}::<{F}, _>({f_packed})'
    if maker == "trait":
        return f'<{F} as FnPtr>::{MAKE[c["kind"]]}_thunk({f_packed})'
    return f'(cc::{marker(c["cc"])}, {f})'


def call(c, fun, k, how="direct"):
    """One call with its events."""
    n = len(c["sig"])
    lets = "".join(f'let a{i} = <{rust(t)}>::make(mix(mix({c["id"]}, {k}), {i})); ' for i, t in enumerate(c["sig"]))
    args = ", ".join(names(n)) if how == "direct" else "(" + "".join(x + ", " for x in names(n)) + ")"
    call = f"{fun}({args})" if how != "args" else fun.replace("ARGS", args)
    return (f'{{ {lets} call({c["id"]}, {digest_list(n)}); let r = unsafe {{ {call} }}; ret({c["id"]}, r.d()); '
            f'called(); }}\n')


def case_c01(c):
    cid, kind, lane = c["id"], c["kind"], c["lane"]
    path = c["path"]
    if lane in ARM and not path.endswith("in"):
        path = {"new": "newin", "cc": "ccin", "short": "shortin", "thunk": "thunkin"}.get(path, path)
    if path.startswith("short") and c["cc"] not in SHORT:
        path = path.replace("short", "cc")
    pre, f = body(c)
    _, fp = body(c, True)
    glob = path in ("new", "cc", "short", "thunk")
    alloc = "jit_alloc::GlobalJitAlloc" if glob else "Bump"
    W = f'{WRAP[kind]}::<F, {STORES[c["store"]]}, {alloc}>'
    m = f'cc::{marker(c["cc"])}'
    maker = ["factory", "trait", "pair"][cid % 3]
    if maker == "trait" and c["store"] != "any":
        maker = "factory"
    if kind == "once" and maker == "trait":
        maker = "factory"
    made = {
        "new": lambda: f"{W}::new({f})", "newin": lambda: f"{W}::new_in({f}, Bump)",
        "cc": lambda: f"{W}::with_cc({m}, {f})", "ccin": lambda: f"{W}::with_cc_in({m}, {f}, Bump)",
        "tryin": lambda: f"{W}::try_with_cc_in({m}, {f}, Bump).unwrap()",
        "short": lambda: f"{W}::{SHORT[c['cc']]}({f})", "shortin": lambda: f"{W}::{SHORT[c['cc']]}_in({f}, Bump)",
        "thunk": lambda: f"{W}::with_thunk({thunk(c, fp, f, maker)})",
        "thunkin": lambda: f"{W}::with_thunk_in({thunk(c, fp, f, maker)}, Bump)",
        "trythunkin": lambda: f"{W}::try_with_thunk_in({thunk(c, fp, f, maker)}, Bump).unwrap()",
    }[path]()
    form = c["form"]
    get = "leak()" if kind == "once" or form == "leak" else "bare()"
    untyped = f"{UNTYPED[kind]}::<dyn Any, {alloc}>"
    use = {
        "plain": "", "leak": "",
        "upcast": "let w = w.upcast::<dyn Any>();",
        "untyped": "let w = w.into_untyped();",
        "untypedup": "let w = w.into_untyped().upcast::<dyn Any>();",
        "from": f"let w = {untyped}::from(w);",
        "moved": "let mut v = vec![w]; v.reserve(100); let w = v.pop().unwrap();",
    }[form]
    p = f"w.{get}"
    if form in ("untyped", "untypedup", "from"):
        p = f"unsafe {{ std::mem::transmute::<*const (), F>({p}) }}"
    calls = "".join(call(c, "p", k) for k in range(1 if kind == "once" else 3))
    left = 1 if kind != "once" and get == "leak()" else 0
    return (f"fn c{cid}() {{ type F = {signature(c)};\n {pre}\n let Some(w) = built({cid}, || {made}) else {{ return end({cid}, 0) }};\n"
            f" {use} let p: F = black_box({p});\n{calls} {'drop(w);' if get == 'bare()' else ''} end({cid}, {left}); }}\n")


def case_c17(c):
    cid, kind = c["id"], c["kind"]
    form = c["form"]
    pre, f = body(c)
    _, fp = body(c, True)
    head = f"fn c{cid}() {{ type F = {signature(c)};\n"
    if c["path"] == "ordinary":
        args = ", ".join(f"a{i}: {rust(t)}" for i, t in enumerate(c["sig"]))
        g = (f'unsafe extern "{c["cc"]}" fn g({args}) -> {rust(c["ret"])} {{ enter({cid}, true, {digest_list(len(c["sig"]))}); '
             f'let r = <{rust(c["ret"])}>::make(mix({cid}, calls() + 40)); leave({cid}, r.d()); r }}\n')
        return (head + g + f"let p: F = g; let q = black_box(p.to_ptr()); same({cid}, p as usize, q as usize);\n"
                f"let s = unsafe {{ F::from_ptr(q) }}; same({cid}, p as usize, s as usize);\n"
                + call(c, "black_box(p).call", 0, "tuple") + call(c, "s.call", 1, "tuple") + call(c, "s", 2)
                + f"end({cid}, 0); }}\n")
    use, how = form.split("-")
    if KINDS.index(use) > KINDS.index(kind):
        use = kind
    store = "any" if c["path"] != "factory" and how == "wrap" else c["store"]
    t = thunk(c, fp, f, c["path"])
    if how == "call":
        fn = {"once": "FnOnceThunk::<F>::call_once(t, ARGS)", "mut": "FnMutThunk::<F>::call_mut(&mut t, ARGS)",
              "fn": "FnThunk::<F>::call(&t, ARGS)"}[use]
        calls = "".join(call(c, fn, k, "args") for k in range(1 if use == "once" else 3))
        return head + f"{pre} let mut t = {t};\n{calls} {'drop(t);' if use != 'once' else ''} end({cid}, 0); }}\n"
    W = f"{WRAP[use]}::<F, {STORES[store]}, Bump>"
    get = "w.leak()" if use == "once" else "w.bare()"
    calls = "".join(call(c, "black_box(p).call", k, "tuple") for k in range(1 if use == "once" else 3))
    return (head + f"{pre}\n let Some(w) = built({cid}, || {W}::with_thunk_in({t}, Bump)) else {{ return end({cid}, 0) }};\n"
            f"let p: F = {get}; same({cid}, p as usize, p.to_ptr() as usize);\n"
            f"let p = unsafe {{ F::from_ptr(black_box(p.to_ptr())) }};\n{calls} "
            f"{'drop(w);' if use != 'once' else ''} end({cid}, 0); }}\n")


def case_c19(c):
    """A variadic function: the first `fix` arguments are declared, the others read from the list."""
    cid, kind, fix = c["id"], c["kind"], c["fix"]
    n = len(c["sig"])
    tys = [rust(t) for t in c["sig"]]
    ret = rust(c["ret"])
    F = f'unsafe extern "C" fn({"".join(t + ", " for t in tys[:fix])}...) -> {ret}'
    decl = "".join(f"a{i}: {tys[i]}, " for i in range(fix))
    reads = "".join(f"let a{i} = unsafe {{ va.next_arg::<{tys[i]}>() }}; " for i in range(fix, n))
    own = "let cap = cap;" if kind == "once" else "let cap = &cap;"
    step = "let ok = ok && n == calls(); n += 1;" if kind != "fn" and c["cap"] else ""
    inner = (f"{{ {own} let ok = cap.ok({cid}); {step} {reads} enter({cid}, ok, {digest_list(n)}); "
             f"let r = <{ret}>::make(mix({cid}, calls() + 40)); leave({cid}, r.d()); r }}")
    f = f"move |{decl}mut va: std::ffi::VaList<'_>| -> {ret} {inner}"
    tup = "".join(f"a{i}, " for i in range(fix))
    fp = f"move |({tup}mut va,): ({''.join(t + ', ' for t in tys[:fix])}std::ffi::VaList<'_>,)| -> {ret} {inner}"
    W = f'{WRAP[kind]}::<F, {STORES[c["store"]]}, Bump>'
    made = {"newin": f"{W}::new_in({f}, Bump)", "shortin": f"{W}::new_variadic_in({f}, Bump)",
            "tryin": f"{W}::try_with_cc_in(cc::Variadic, {f}, Bump).unwrap()",
            "thunkin": f'{W}::with_thunk_in(thunk_factory::{MAKE[kind]}{SUFFIX[c["store"]]}::<F, _>({fp}), Bump)'}[c["path"]]
    get = "leak()" if kind == "once" or c["form"] == "leak" else "bare()"
    calls = "".join(call(c, "p", k) for k in range(1 if kind == "once" else 3))
    left = 1 if kind != "once" and get == "leak()" else 0
    up = "let w = w.upcast::<dyn Any>();" if c["form"] == "upcast" else ""
    return (f"fn c{cid}() {{ type F = {F};\n let cap = Cap::<{c['cap']}>::new({cid}); let mut n = 0u64;\n"
            f" let Some(w) = built({cid}, || {made}) else {{ return end({cid}, 0) }};\n {up} let p: F = black_box(w.{get});\n"
            f" same({cid}, p as usize, p.to_ptr() as usize); let p = unsafe {{ F::from_ptr(p.to_ptr()) }};\n"
            f"{calls} {'drop(w);' if get == 'bare()' else ''} end({cid}, {left}); }}\n")


REFS = {"ref": "&'{} u64", "mut": "&'{} mut u64", "sl": "&'{} [u8]", "hold": "Hold<'{}>", "opt": "Option<&'{} u64>",
        "arr": "&'{} [u16; N]"}


def hrtb(t):
    if "@" not in t:
        return rust(t)
    l, k = t.split("@")
    return REFS[k].format(l)


def case_c16(c):
    """A declaration made with the macro, wrapped and called in all the ways a function pointer can be."""
    cid, kind, variant = c["id"], c["kind"], c["body"]
    sig = list(c["sig"])
    extra, gen, where, inst, pre, word = None, "", "", "", "", ""
    if variant == "type":
        extra, gen, inst = "G", "<G: V + 'static>", "<S3>"
    elif variant == "default":
        extra, gen, inst = "G", "<G: V + 'static = u32>", ""
    elif variant == "nameF":
        extra, gen, inst = "F", "<F: V + 'static>", "<S2>"
    elif variant == "life":
        extra, gen, inst = "f@ref", "<'f>", "<'static>"
    elif variant == "where":
        extra, gen, where, inst = "G::Out", "<G>", " where G: Family,", "<u32>"
    elif variant == "const":
        extra, gen, inst = "a@arr", "<const N: usize>", "<3>"
    elif variant == "attr":
        pre = "#[derive(PartialEq, Eq)] "
    elif variant == "unsafe":
        word = "unsafe "
    if extra:
        sig = ([extra] + sig)[:12]
    lives = sorted({t[0] for t in sig if "@" in t} - {"f"})
    tys = [hrtb(t) for t in sig]
    # the result is one of the references that came in, or a value
    source = next((i for i, t in enumerate(sig) if "@" in t and c["ret"] == t[0]), None)
    ret = tys[source] if source is not None else rust(c["ret"]) if len(c["ret"]) > 1 else "u32"
    forall = f"for<{', '.join(chr(39) + l for l in lives)}> " if lives else ""
    arrow = f" -> {ret}" if ret != "()" else ""
    decl = (f"mod m{cid} {{ use super::*; closure_ffi::bare_hrtb! {{ {pre}pub(super) type T{gen}{where} = "
            f'{forall}{word}extern "{c["cc"]}" fn({", ".join(tys)}){arrow}; }} }}\n')
    real = {"G": inst[1:-1] or "u32", "F": "S2", "G::Out": "u64"}
    conc = [real.get(t, t).replace("'f", "'static").replace("; N]", "; 3]") for t in tys]
    cret = real.get(ret, ret).replace("'f", "'static").replace("; N]", "; 3]")
    plain = f'{forall}unsafe extern "{c["cc"]}" fn({", ".join(conc)}) -> {cret}'
    n = len(sig)
    own = "let cap = cap;" if kind == "once" else "let cap = &cap;"
    result = f"a{source}" if source is not None else f"<{cret}>::make(mix({cid}, 40))"
    inner = (f"{{ {own} enter({cid}, cap.ok({cid}), {digest_list(n)}); let r = {result}; leave({cid}, D::d(&r)); r }}")
    f = f"move |{', '.join(names(n))}| {inner}"
    fp = f"move |({''.join(x + ', ' for x in names(n))})| {inner}"
    W = f'{WRAP[kind]}::<F, {STORES[c["store"]]}, Bump>'
    made = {"newin": f"{W}::new_in({f}, Bump)", "ccin": f"{W}::with_cc_in(F::cc(), {f}, Bump)",
            "tryin": f"{W}::try_with_cc_in(m{cid}::T_CC, {f}, Bump).unwrap()",
            "thunkin": f'{W}::with_thunk_in(thunk_factory::{MAKE[kind]}{SUFFIX[c["store"]]}::<F, _>({fp}), Bump)'}[c["path"]]
    get = "leak()" if kind == "once" or c["form"] == "leak" else "bare()"
    use = {"plain": "", "leak": "", "upcast": "let w = w.upcast::<dyn Any>();", "untyped": "let w = w.into_untyped();"}[c["form"]]
    p = f"w.{get}"
    if c["form"] == "untyped":
        p = f"unsafe {{ F::from_ptr({p}) }}"

    def one(k, fun, tuple_):
        outer, inside = [], []
        for i, t in enumerate(sig):
            lt, kk = t.split("@") if "@" in t else ("", "")
            to = outer if source is not None and lt == sig[source][0] or lt == "f" else inside
            v = f"mix({cid}, {100 * k + i})"
            if not lt:
                to.append(f"let a{i} = <{conc[i]}>::make({v});")
            elif lt == "f":
                to.append(f"static X{k}_{i}: u64 = {i + 5}; let a{i} = &X{k}_{i};")
            elif kk == "arr":
                to.append(f"let x{i} = [7u16; 3]; let a{i} = &x{i};")
            elif kk == "sl":
                to.append(f"let x{i} = [7u8; {i + 2}]; let a{i} = &x{i}[..];")
            else:
                to.append(f"let mut x{i} = {v};")
                to.append({"ref": f"let a{i} = &x{i};", "mut": f"let a{i} = &mut x{i};", "opt": f"let a{i} = Some(&x{i});",
                           "hold": f"let a{i} = Hold {{ r: &x{i}, k: {i} }};"}[kk])
        args = ", ".join(names(n))
        if tuple_:
            args = "(" + "".join(x + ", " for x in names(n)) + ")"
        return (f"{{ {' '.join(outer)} let r: {cret_here} = {{ {' '.join(inside)} call({cid}, {digest_list(n)}); unsafe {{ {fun.replace('ARGS', args)} }} }}; "
                f"ret({cid}, D::d(&r)); }}\n")

    cret_here = re.sub(r"'[abc]", "'_", cret)
    ways = [("p.0(ARGS)", 0), ("p(ARGS)", 0), ("FnPtr::call(p, ARGS)", 1), ("q(ARGS)", 0), ("F::from(q)(ARGS)", 0)]
    pick = [ways[(cid + 2 * k) % 5] for k in range(1 if kind == "once" else 3)]
    calls = "".join(one(k, *w) for k, w in enumerate(pick))
    left = 1 if kind != "once" and get == "leak()" else 0
    eq = f"same({cid}, (p == F::from(q)) as usize, 1);" if variant == "attr" else ""
    return (decl + f"fn c{cid}() {{ type F = m{cid}::T{inst};\n let cap = Cap::<{c['cap']}>::new({cid});\n"
            f" let Some(w) = built({cid}, || {made}) else {{ return end({cid}, 0) }};\n {use} let p: F = {p};\n"
            f" let q: {plain} = p.into(); same({cid}, p.0 as usize, p.to_ptr() as usize); same({cid}, q as usize, p.to_ptr() as usize);\n"
            f" let p = unsafe {{ F::from_ptr(black_box(p.to_ptr())) }}; {eq}\n{calls} {'drop(w);' if get == 'bare()' else ''} end({cid}, {left}); }}\n")


# ------------------------------------------------------------------------- registers

GREG = {"sysv": [7, 6, 2, 1, 8, 9], "win": [1, 2, 8, 9], "fastcall": [1, 2], "thiscall": [1]}
CLASS = {"i32": "u32", "i64": "u64", "f32": "f32", "f64": "f64", "ptr": "*const u8", "()": "()"}


def rule(lane, cc):
    b = cc.replace("-unwind", "")
    if lane == "x86_64":
        return "win" if b in ("win64", "efiapi") else "sysv"
    if lane == "i686":
        return b if b in ("fastcall", "stdcall", "thiscall") else "cdecl"
    if lane == "aarch64":
        return "a64"
    return "arm" if b in ("aapcs", "efiapi") else "vfp"


def size(lane, t):
    return {"i32": 4, "f32": 4, "i64": 8, "f64": 8, "ptr": 8 if lane in ("x86_64", "aarch64") else 4, "()": 0}[t]


def case_c15(c):
    """REGS entry: the pointer to call and what keeps it alive."""
    cid = c["id"]
    sig = f'unsafe extern "{c["cc"]}" fn({", ".join(CLASS[t] for t in c["sig"])}) -> {CLASS[c["ret"]]}'
    args = ", ".join(f"a{i}: {CLASS[t]}" for i, t in enumerate(c["sig"]))
    n = len(c["sig"])
    extra = {"light": "", "trash": "trash();", "large": "large();", "panic": "let _ = std::panic::catch_unwind(|| panic!());"}
    inner = (f'enter({cid}, OK, {digest_list(n)}); look(); {extra[c["body"]]} '
             f'let r = <{CLASS[c["ret"]]}>::make(mix({cid}, 40)); leave({cid}, r.d()); r')
    head = f"fn c{cid}() -> Option<(usize, Box<dyn std::any::Any>)> {{ type F = {sig};\n"
    if c["path"] == "ordinary":
        return (head + f'unsafe extern "{c["cc"]}" fn g({args}) -> {CLASS[c["ret"]]} {{ {inner.replace("OK", "true")} }}\n'
                f"Some((g as F as usize, Box::new(()))) }}\n")
    kind = c["kind"]
    own = "let cap = cap;" if kind == "once" else "let cap = &cap;"
    f = (f'move |{args}| -> {CLASS[c["ret"]]} {{ {own} {inner.replace("OK", f"cap.ok({cid})")} }}')
    pre = f'let cap = Cap::<{c["cap"]}>::new({cid});'
    W = f"{WRAP[kind]}::<F, dyn Any, Bump>"
    get = "Some((w.leak() as usize, Box::new(())))" if kind == "once" else "Some((w.bare() as usize, Box::new(w)))"
    return head + f"{pre} let w = built({cid}, || {W}::new_in({f}, Bump))?; {get} }}\n"


def image(c):
    """Registers and stack of the caller, from the places the specification assigns."""
    cid, lane = c["id"], c["lane"]
    r = rule(lane, c["cc"])
    w = 8 if lane in ("x86_64", "aarch64") else 4
    ops = []
    stack = {}
    for i, (t, at) in enumerate(zip(c["sig"], c["at"])):
        v = mix(mix(c["key"], 7), i)
        if t in ("f32", "f64"):
            v &= 0xbfffffff if t == "f32" else 0xbfffffffffffffff
        v &= (1 << 8 * size(lane, t)) - 1
        ops.append(f"A={v:x}")
        sz = size(lane, t)
        for k, (where, n) in enumerate(at):
            part = v >> 8 * w * k
            if where == "g":
                junk = mix(cid, 500 + i) << 8 * sz if sz < w else 0
                part = (part & ((1 << 8 * w) - 1)) | (junk & ((1 << 8 * w) - 1))
                ops.append(f"R{GREG[r][n] if r in GREG else n}={part:x}")
            elif where == "v" and r == "vfp":
                ops.append(f"H{n}={part & 0xffffffff:x}")
            elif where == "v":
                junk = (mix(cid, 600 + i) << 32) & M64 if sz == 4 else 0
                ops.append(f"V{2 * n}={v | junk:x}")
            else:
                for b in range(min(w, sz - k * w)):
                    stack[n + b] = part >> 8 * b & 255
    ops += [f"S{k}={v:x}" for k, v in stack.items()]
    res = c["res"]
    q = ",".join({"rg": f"g{n}", "rv": f"v{n}", "st": "x"}[k] for k, n in res)
    return f'{cid} {" ".join(ops)} Q={q} T={size(lane, c["ret"])}'.replace("  ", " ")


# ------------------------------------------------------------------------- running

PLAIN = ("x86_64", "aarch64")      # builds without safe_jit


class Program:
    """The harness with generated cases.  Cases the compiler does not accept are taken out and remembered."""

    def __init__(self, work, name, lane, cases, make, release, features=(), nightly=False, flags="", tag="",
                 table="CASES: &[(u32, fn())]", head=HEAD):
        self.lane, self.name, self.rejected = lane, name, {}
        src = os.path.join(work, "src-" + name)
        shutil.copytree(os.path.join(vlib.VERIF, "harness", "sig"), src)
        shutil.copytree(os.path.join(vlib.VERIF, "harness", "reloc", "src"), os.path.join(work, "reloc", "src"),
                        dirs_exist_ok=True)
        for attempt in range(12):
            left = [c for c in cases if c["id"] not in self.rejected]
            text = head + f"pub const {table} = &[" + ", ".join(f"({c['id']}, c{c['id']})" for c in left) + "];\n"
            lines = {}
            for c in left:
                t = make(c)
                at = text.count("\n") + 1
                for n in range(at, at + t.count("\n") + 1):
                    lines.setdefault(n, c["id"])
                text += t
            with open(os.path.join(src, "src", "cases.rs"), "w") as f:
                f.write(text)
            ok, path, log = vlib.cargo_build("sig", lane, release=release, features=features, nightly=nightly, src=src,
                                             rustflags=flags, tag=tag, jobs=4, default="plain" not in features)
            if ok:
                break
            found = 0
            for e in re.split(r"(?m)^(?=error)", log)[1:]:
                m = re.search(r"--> src/cases\.rs:(\d+)", e)
                if m and int(m.group(1)) in lines and lines[int(m.group(1))] not in self.rejected:
                    self.rejected[lines[int(m.group(1))]] = e[:1500]
                    found += 1
            if not found or not left:
                raise ToolError(f"cannot build {name}:\n{log[-6000:]}")
        else:
            # too many to find them all: what was found is reported
            self.bin = None
            return
        self.bin = os.path.join(work, "sig-" + name)    # the next program of this lane replaces the binary
        shutil.copy(os.path.join(path, "sig"), self.bin)
        shutil.rmtree(src, ignore_errors=True)

    def run(self, args=(), limit=30):
        """Events of all cases; a case that kills the process gets a crash event."""
        events, first, crashes = [], 0, 0
        while self.bin:
            try:
                p = subprocess.run(vlib.runner(self.lane) + [self.bin, str(first), *args], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=200)
                out, err, status = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                out, err, status = e.stdout or b"", b"", "no end"
                limit = 0
            now, done = None, False
            for line in out.decode("utf8", "replace").split("\n"):
                if not line.startswith("{"):
                    continue
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                if e["e"] == "begin":
                    now = e["c"]
                elif e["e"] == "done":
                    done = True
                else:
                    events.append(e)
            if done:
                return events
            if now is None or now < first:
                raise ToolError(f"{self.name}: {status} {err[-1000:]}")
            events.append({"e": "crash", "c": now, "status": status})
            first, crashes = now + 1, crashes + 1
            if crashes >= limit:
                return events
        return events


def validate(work, name, cases, events, base=0):
    """Judge events with CallTrace.tla; returns (offending events, number of events)."""
    by_case = {}
    for e in events:
        by_case.setdefault(e["c"], []).append(e)
    path = os.path.join(work, f"trace-{name}.ndjson")
    lines = []
    for c in cases:
        if c["id"] in by_case:
            lines.append({"e": "case", "c": c["id"], "lane": c["lane"], "cc": c["cc"],
                          "sig": c["sig"] if c.get("at") is not None and c.get("regs") else []})
            lines += by_case[c["id"]]
    with open(path, "w") as f:
        for e in lines:
            f.write(json.dumps(e) + "\n")
    rc, out = vlib.tlc("CallTrace", vlib.cfg("CallTrace"), work, env_extra={"TRACE": path})
    m = re.search(r'<<\s*"BAD",\s*(<<.*?>>),\s*(\d+)\s*>>', out, re.S)
    if rc != 0 or not m or int(m.group(2)) != len(lines):
        raise ToolError("CallTrace: " + out[-3000:])
    bad = [lines[int(x) - 1] for x in re.findall(r"\d+", m.group(1))]
    os.remove(path)
    return bad, len(lines)


def report(check, name, cases, events, bad, says):
    by_id = {c["id"]: c for c in cases}
    seen = set()
    for e in bad:
        if e["c"] in seen or len(check.violations) >= 8:
            continue
        seen.add(e["c"])
        c = by_id[e["c"]]
        what = f"{name}: {signature(c) if not c.get('regs') else c['cc'] + ' ' + str(c['sig'])}: {says(e)}"
        check.violation(what, {"build": name, "case": {k: v for k, v in c.items()},
                               "event": e, "events": [x for x in events if x["c"] == e["c"]][:40]})


def says(e):
    return {"enter": "the closure got other arguments, or was damaged", "ret": "the caller got another result",
            "leave": "the closure ran out of turn", "call": "a call began before the last one was over",
            "keep": "a preserved register, the stack pointer or its alignment is wrong",
            "same": "the pointers differ", "end": f"values alive at the end: {e.get('live')}",
            "rejected": "the compiler does not accept it: " + e.get("why", "").split("\n")[0],
            "refused": "the library refuses to make the function: " + e.get("why", ""),
            "crash": f"the program died ({e.get('status')})"}.get(e["e"], e["e"])


def calls_check(check, groups, make, model):
    """groups: (lane, release, features, nightly, generation parameters)"""
    work = check.work

    def one(g):
        lane, release, feats, nightly, params = g
        plain = "plain" in feats
        name = lane + ("-release" if release else "") + ("-plain" if plain else "")
        cases = generate(work, lane, **params)
        p = Program(work, name, lane, cases, make, release, feats, nightly,
                    tag=("-n" if nightly else "") + ("-p" if plain else "") + ("-r" if release else ""))
        events = p.run() + [{"e": "rejected", "c": c, "why": e} for c, e in p.rejected.items()]
        bad, n = validate(work, name, cases, events)
        return name, cases, events, bad, n

    results = vlib.parallel([lambda g=g: one(g) for g in groups] + [lambda: model_check(check, model)], 4)
    for r in results:
        if r is None:
            continue
        name, cases, events, bad, n = r
        report(check, name, cases, events, bad, says)
        check.count("traces_validated_against_impl", len({e["c"] for e in events}))
        check.count("events_validated", n)
        check.count("calls", sum(e["e"] == "call" for e in events))
        refused = [e for e in events if e["e"] == "refused"]
        if refused:
            check.count("refused_by_library", len(refused))
            check.coverage.setdefault("refusals", {})[name] = refused[0]["why"][:120]
        check.coverage.setdefault("samples", [])
        if len(check.coverage["samples"]) < 6:
            check.coverage["samples"].append({"build": name, "signature": signature(cases[-1]), "case": cases[-1]["id"]})
    return results


def model_check(check, maxargs):
    d, g = vlib.model_check("Call", vlib.cfg("Call", MaxArgs=maxargs), check.work, workers=4)
    check.coverage["states"], check.coverage["transitions"] = d, g
    return None


def c01(check):
    """Every convention and arity on every target."""
    params = lambda lane, r: dict(rounds=r, UseCC=conventions(lane), Arities=range(13), Types=SCALARS + WIDE,  # noqa: E731
                                  Returns=SCALARS + WIDE + ["()"], Kinds=KINDS, Caps=[0, 1, 8, 40, 600],
                                  Paths=["new", "newin", "cc", "ccin", "tryin", "short", "shortin", "thunk", "thunkin", "trythunkin"],
                                  Stores=list(STORES), Forms=["plain", "upcast", "untyped", "untypedup", "from", "leak", "moved"])
    rel = LANES if not QUICK else ["x86_64", "aarch64", "i686"]
    groups = [(l, False, (), False, params(l, 1 if QUICK else 3)) for l in LANES]
    groups += [(l, True, (), False, params(l, 2 if QUICK else 4)) for l in rel]
    groups += [(l, True, ["plain"], False, params(l, 1 if QUICK else 4)) for l in PLAIN]
    calls_check(check, groups, case_c01, 2 if QUICK else 3)


def c17(check):
    params = lambda lane, r: dict(rounds=r, UseCC=conventions(lane), Arities=range(13), Types=SCALARS + WIDE,  # noqa: E731
                                  Returns=SCALARS + WIDE + ["()"], Kinds=KINDS, Caps=[0, 8, 40],
                                  Paths=["factory", "factory", "trait", "pair", "ordinary"], Stores=list(STORES),
                                  Forms=["once-call", "mut-call", "fn-call", "once-wrap", "mut-wrap", "fn-wrap"])
    lanes = LANES if not QUICK else ["x86_64", "i686", "armv7"]
    groups = [(l, False, (), False, params(l, 2 if QUICK else 5)) for l in lanes]
    groups += [("x86_64", True, (), False, params("x86_64", 2 if QUICK else 5)),
               ("aarch64", True, (), False, params("aarch64", 2 if QUICK else 5))]
    calls_check(check, groups, case_c17, 2)


def c15(check):
    work = check.work
    builds = [(l, r) for l in LANES for r in (False, True) if not QUICK or not (r and l in ARM)]

    def one(lane, release):
        name = lane + ("-release" if release else "")
        cases = generate(work, lane, 2 if QUICK else 6, UseCC=[c for c in conventions(lane) if c != "Rust"],
                         Arities=range(13), Types=["i32", "i64", "f32", "f64", "ptr"],
                         Returns=["i32", "i64", "f32", "f64", "ptr", "()"], Kinds=KINDS, Caps=[0, 8, 40],
                         Bodies=["light", "trash", "large", "panic"], Places=True)
        both = []
        for c in cases:
            c.update(regs=True, key=c["id"], path="ordinary", id=2 * c["id"])
            both += [c, dict(c, id=c["id"] + 1, path="wrapped")]
        flags = STATIC if lane in ARM else "-C link-arg=-Wl,-z,notext" if lane == "i686" else ""
        p = Program(work, name, lane, both, case_c15, release, ["regs"], flags=flags, tag="-g" + ("-r" if release else ""),
                    table="REGS: &[(u32, fn() -> Option<(usize, Box<dyn std::any::Any>)>)]",
                    head=HEAD + "use crate::regs::*;\n")
        # what the compiler refuses is for C16 and C01 to judge
        both = [c for c in both if c["id"] not in p.rejected]
        check.count("not_compiled", len(p.rejected))
        if not both or not p.bin:
            raise ToolError(f"cannot build {name}: {p.rejected}")
        images = os.path.join(work, "images-" + name)
        with open(images, "w") as f:
            f.write("".join(image(c) + "\n" for c in both))
        events = p.run([images])
        bad, n = validate(work, name, both, events)
        own = [e for e in bad if e["c"] % 2 == 0]
        if own:
            c = next(c for c in both if c["id"] == own[0]["c"])
            raise ToolError(f"{name}: an ordinary function disagrees with the convention: {c} "
                            f"{[e for e in events if e['c'] == c['id']]}")
        return name, both, events, bad, n

    for r in vlib.parallel([lambda b=b: one(*b) for b in builds] + [lambda: model_check(check, 2 if QUICK else 3)], 4):
        if r is None:
            continue
        name, cases, events, bad, n = r
        report(check, name, cases, events, bad, says)
        check.count("traces_validated_against_impl", len({e["c"] for e in events if e["c"] % 2}))
        check.count("ordinary_functions_compared", len({e["c"] for e in events if e["c"] % 2 == 0}))
        check.count("events_validated", n)
        check.count("refused_by_library", sum(e["e"] == "refused" for e in events))
        check.coverage.setdefault("samples", []).append({"build": name, "case": {k: cases[-1][k] for k in ("cc", "sig", "ret", "at", "body")}})


def c19(check):
    """Declared and undeclared arguments of every count up to 20 in all."""
    params = lambda lane, r: dict(rounds=r, UseCC=["..."], Arities=range(21),  # noqa: E731
                                  Types=["i32", "u32", "i64", "u64", "f64", "ptr", "usize", "isize"],
                                  Returns=SCALARS + WIDE + ["()"], Kinds=KINDS, Caps=[0, 1, 8, 40],
                                  Paths=["newin", "shortin", "tryin", "thunkin"], Stores=list(STORES),
                                  Forms=["plain", "upcast", "leak"])
    groups = [(l, False, ["variadic"], True, params(l, 5 if QUICK else 20)) for l in LANES]
    groups += [(l, True, ["variadic"], True, params(l, 5 if QUICK else 20)) for l in (["x86_64"] if QUICK else LANES)]
    calls_check(check, groups, case_c19, 2)


def c16(check):
    refs = [f"{l}@{k}" for l in "abc" for k in ("ref", "mut", "sl", "hold", "opt")]
    params = lambda lane, r: dict(rounds=r, UseCC=conventions(lane), Arities=range(13),  # noqa: E731
                                  Types=refs + ["i32", "u64", "f64", "S3", "u8"],
                                  Returns=["a", "b", "c", "i32", "f64", "S5", "()"], Kinds=KINDS, Caps=[0, 8, 40],
                                  Paths=["newin", "ccin", "tryin", "thunkin"], Stores=list(STORES),
                                  Forms=["plain", "upcast", "untyped", "leak"],
                                  Bodies=["plain", "plain", "type", "default", "nameF", "life", "where", "const", "attr", "unsafe"])
    groups = [("x86_64", False, ["hrtb"], False, params("x86_64", 1 if QUICK else 3)),
              ("i686", True, ["hrtb"], False, params("i686", 1)),
              ("aarch64", True, ["hrtb"], False, params("aarch64", 1))]
    if not QUICK:
        groups += [(l, False, ["hrtb"], False, params(l, 1)) for l in ARM]
    calls_check(check, groups, case_c16, 2)
    probe.declarations(check)


def warm(work):
    """Builds without cases, one list per build directory, for setup."""
    table = "REGS: &[(u32, fn() -> Option<(usize, Box<dyn std::any::Any>)>)]"

    def build(lane, release, kind):
        name = f"warm-{lane}-{release}-{kind}"
        feats = [kind] if kind else ()
        tag = {"regs": "-g", "variadic": "-n", "plain": "-p"}.get(kind, "") + ("-r" if release else "")
        flags = "" if kind != "regs" else STATIC if lane in ARM else "-C link-arg=-Wl,-z,notext" if lane == "i686" else ""
        os.makedirs(os.path.join(work, name))
        Program(os.path.join(work, name), name, lane, [], None, release, feats, kind == "variadic", flags, tag,
                **({"table": table} if kind == "regs" else {}))
        shutil.rmtree(os.path.join(work, name))

    res = []
    for l in LANES:
        for r in (False, True):
            if r and l in ARM:
                continue
            res.append([lambda l=l, r=r: build(l, r, "hrtb"), lambda l=l, r=r: build(l, r, "")])
            res.append([lambda l=l, r=r: build(l, r, "regs")])
        res.append([lambda l=l: build(l, False, "variadic")])
    res.append([lambda: build("x86_64", True, "variadic")])
    res += [[lambda l=l: build(l, True, "plain")] for l in PLAIN]
    return res


def run(prop):
    check = Check(prop)
    {"C01": c01, "C15": c15, "C16": c16, "C17": c17, "C19": c19}[prop](check)
    return check.finish()
