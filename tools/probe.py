"""What the compiler must accept and refuse: probes of Markers.tla and Borrow.tla compiled against the library."""
import os
import re
import shutil
import zlib

import vlib
from vlib import Check, QUICK, ToolError

KIND = {(): "Neither", ("Send",): "Send1", ("Sync",): "Sync1", ("Send", "Sync"): "Both"}
STORE = {(): "dyn Any", ("Send",): "dyn Send", ("Sync",): "dyn Sync", ("Send", "Sync"): "dyn Send + Sync"}
WRAP = {"once": "BareFnOnceAny", "mut": "BareFnMutAny", "fn": "BareFnAny"}
UNTYPED = {"once": "UntypedBareFnOnce", "mut": "UntypedBareFnMut", "fn": "UntypedBareFn"}
ALIAS = {"once": "BareFnOnce", "mut": "BareFnMut", "fn": "BareFn"}
MAKE = {"once": "make_once", "mut": "make_mut", "fn": "make"}
SUFFIX = {"plain": "", "send": "_send", "sync": "_sync", "sendsync": "_send_sync"}
HEAD = """#![allow(unused, dead_code, clippy::all, mismatched_lifetime_syntaxes)]
pub mod prelude;
use closure_ffi::{cc, thunk_factory, traits::*, *};
use closure_ffi::traits::Any;
use prelude::*;
use std::marker::PhantomData;
"""
# function types declared through the macro, with and without the word unsafe
TYPES = """bare_hrtb! { pub type Declared = for<'a> unsafe extern "C" fn(&'a u32) -> u32; }
bare_hrtb! { pub type Relaxed = for<'a> extern "C" fn(&'a u32) -> u32; }
"""


def key(marks):
    return tuple(sorted(marks))


class Probe:
    def __init__(self, name, text, ok, codes=(), twin=None, info=None):
        self.name, self.text, self.ok, self.codes, self.info = name, text, ok, codes, info


# the library with its stable interface, and with the one that accepts every trait object as a store
BUILDS = ("stable", "nightly")


def compile_all(work, tag, probes, types="", build="stable"):
    """Errors of each probe: {index: [code..]}; all probes of one crate."""
    nightly = build == "nightly"
    if nightly:
        tag += "-n"
    src = os.path.join(work, "probe-" + tag)
    shutil.copytree(os.path.join(vlib.VERIF, "harness", "probe"), src)
    text, where = HEAD + types, {}
    for n in range(HEAD.count("\n") + 1, text.count("\n") + 1):
        where[n] = -1
    for i, p in enumerate(probes):
        body = p.text.replace("NAME", f"p{i}")
        at = text.count("\n") + 1
        for n in range(at, at + body.count("\n") + 1):
            where[n] = i
        text += body + "\n"
    with open(os.path.join(src, "src", "lib.rs"), "w") as f:
        f.write(text)
    ok, _, log = vlib.cargo_build("probe", "x86_64", features=["hrtb", "tuples"] if nightly else ["hrtb"], src=src, check_only=True,
                                  nightly=nightly, tag="-" + tag, jobs=2)
    shutil.rmtree(src, ignore_errors=True)
    errors = {}
    for e in re.split(r"(?m)^(?=error|warning)", log):
        if not e.startswith("error") or e.startswith("error: could not compile `probe`"):
            continue
        m = next((m for m in re.finditer(r"(?:-->|:::) src/lib\.rs:(\d+)", e) if int(m.group(1)) in where), None)
        if not m:
            raise ToolError(f"probe crate {tag}: {e[:3000]}")
        c = re.match(r"error\[(E\d+)\]", e)
        errors.setdefault(where[int(m.group(1))], []).append((c.group(1) if c else "error", e[:1200]))
    if not ok and not errors:
        raise ToolError(f"probe crate {tag}: {log[-4000:]}")
    return errors


def decide(check, crates, work, types=""):
    """crates: {tag: probes}.  A crate holds either accepted probes or rejected ones of one compiler phase."""
    runs = [(t, b) for b in BUILDS for t in crates]
    found = dict(zip(runs, vlib.parallel([lambda t=t, b=b: compile_all(work, t, crates[t], types, b) for t, b in runs], 6)))
    broken = next((f[-1] for f in found.values() if -1 in f), None)
    if broken:
        check.violation("the declarations of the probes are refused: " + broken[0][1].split("\n")[0],
                        {"program": HEAD + types, "must_compile": True, "errors": [e for _, e in broken][:3]})
        return
    for tag, build in runs:
        for i, p in enumerate(crates[tag]):
            errs = found[tag, build].get(i, [])
            check.count("probes")
            check.count("accepted_probes" if p.ok else "rejected_probes")
            if p.ok and errs:
                bad = "the compiler refuses a program it must accept: " + errs[0][1].split("\n")[0]
            elif not p.ok and not errs:
                bad = "the compiler accepts a program it must refuse"
            else:
                # refused, if not with one of the errors seen when the probes were written
                if not p.ok and p.codes and not any(c in p.codes for c, _ in errs):
                    check.count("refused_with_another_error")
                continue
            if len(check.violations) < 8:
                check.violation(f"{p.name} ({build}): {bad}", {"program": HEAD + p.text, "build": build, "probe": p.info, "must_compile": p.ok,
                                                     "errors": [e for _, e in errs][:3]})
            else:
                check.count("further_violations")


def closure(real, packed=False):
    arg = "(a,): (u32,)" if packed else "a: u32"
    return f"{{ let x = {KIND[key(real)]}(PhantomData); move |{arg}| -> u32 {{ let _ = &x; a }} }}"


def alloc(marks):
    return f"{KIND[key(marks)]}(PhantomData)"


def thunk_of(fam, maker, real):
    if maker == "trait":
        return f"<F as FnPtr>::{MAKE[fam]}_thunk({closure(real, True)})"
    return f"thunk_factory::{MAKE[fam]}{SUFFIX[maker]}::<F, _>({closure(real, True)})"


MARK_CODES = {"E0277", "E0599", "E0271"}


def marker_probes(states):
    """(accepted, rejected) programs for every state and step of Markers.tla."""
    res = []
    for st in states:
        at, fam = st["at"], st["fam"]
        what = f"{at} {fam} real={key(st['real'])} store={key(st['s'])} alloc={key(st['alloc'])} made={st['made']}"
        if at in ("typed", "untyped"):
            W = (f"{WRAP[fam]}<F, {STORE[key(st['s'])]}, {KIND[key(st['alloc'])]}>" if at == "typed"
                 else f"{UNTYPED[fam]}<{STORE[key(st['s'])]}, {KIND[key(st['alloc'])]}>")
            value = None
        elif at == "thunk":
            value = thunk_of(fam, st["made"], st["real"])
        else:
            value = closure(st["real"])
        for m in ("Send", "Sync"):
            ok = m in st["claims"]
            if value is None:
                text = f"fn NAME(w: {W}) {{ {m.lower()}(&w); }}"
            else:
                text = f"fn NAME() {{ let t = {value}; {m.lower()}(&t); }}"
            res.append(Probe(f"{what} is {m}", text, ok, MARK_CODES, info=st))
        for t in st["steps"]:
            f2, s2 = t["fam"], STORE[key(t["s"])]
            texts = []
            if t["step"] == "make":
                texts = [f"let _ = {thunk_of(f2, t['maker'], st['real'])};"]
            elif t["step"] == "wrap" and at == "thunk":
                W2 = f"{WRAP[f2]}::<F, {s2}, Both>"
                texts = [f"let _ = {W2}::with_thunk_in({value}, ALLOC);",
                         f"let _ = {W2}::try_with_thunk_in({value}, ALLOC);",
                         f"let _ = {WRAP[f2]}::<F, {s2}>::with_thunk({value});"]
            elif t["step"] == "wrap":
                W2, G = f"{WRAP[f2]}::<F, {s2}, Both>", f"{WRAP[f2]}::<F, {s2}>"
                texts = [f"let _ = {W2}::new_in({value}, ALLOC);", f"let _ = {W2}::with_cc_in(cc::C, {value}, ALLOC);",
                         f"let _ = {W2}::try_with_cc_in(cc::C, {value}, ALLOC);", f"let _ = {W2}::new_c_in({value}, ALLOC);",
                         f"let _ = {W2}::with_thunk_in((cc::C, {value}), ALLOC);",
                         f"let _ = {G}::new({value});", f"let _ = {G}::with_cc(cc::C, {value});", f"let _ = {G}::new_c({value});",
                         f"let _ = {G}::with_thunk((cc::C, {value}));"]
            elif t["step"] == "alias":
                texts = [f"let _ = {ALIAS[f2]}Sync::<F, Both>::new_in({value}, ALLOC);", f"let _ = {ALIAS[f2]}Sync::<F>::new({value});"]
            elif t["step"] == "upcast":
                texts = [f"let _ = w.upcast::<{s2}>();"]
            elif t["step"] == "untype":
                texts = [f"let _: {UNTYPED[fam]}<{s2}, _> = w.into_untyped();"]
            elif t["step"] == "from":
                texts = [f"let _: {UNTYPED[fam]}<{s2}, _> = w.into();", f"let _ = {UNTYPED[fam]}::<{s2}, _>::from(w);"]
            arg = f"w: {W}" if value is None else ""
            for x in texts:
                res.append(Probe(f"{what} {x}", f"fn NAME({arg}) {{ {x} }}", t["ok"], MARK_CODES, info=dict(st, steps=t)))
    return res


# types of the library with fixed markers
FIXED = [("jit_alloc::GlobalJitAlloc", "Send", True), ("jit_alloc::GlobalJitAlloc", "Sync", True),
         ("jit_alloc::ThreadJitAlloc", "Send", False), ("jit_alloc::ThreadJitAlloc", "Sync", False),
         ("BareFn<'static, F>", "Send", False), ("BareFn<'static, F>", "Sync", False),
         ("BareFnSync<'static, F>", "Send", True), ("BareFnSync<'static, F>", "Sync", True),
         ("BareFnMut<'static, F>", "Send", False), ("BareFnMut<'static, F>", "Sync", False),
         ("BareFnMutSync<'static, F>", "Send", True), ("BareFnMutSync<'static, F>", "Sync", True),
         ("BareFnOnce<'static, F>", "Send", False), ("BareFnOnce<'static, F>", "Sync", False),
         ("BareFnOnceSync<'static, F>", "Send", True), ("BareFnOnceSync<'static, F>", "Sync", True),
         ("BareFnSync<'static, F, jit_alloc::ThreadJitAlloc>", "Send", False),
         ("BareFnMutSync<'static, F, &'static Sync1>", "Send", True), ("BareFnMutSync<'static, F, &'static Send1>", "Send", False),
         ("BareFnOnceSync<'static, F, std::rc::Rc<Both>>", "Send", False),
         ("BareFnOnceSync<'static, F, std::sync::Arc<Both>>", "Send", True),
         ("BareFnSync<'static, F, std::sync::Arc<Send1>>", "Send", False)]


def emitted(module, work, **over):
    text = vlib.cfg(module, **over) + "INVARIANT Emit\n"
    rc, out = vlib.tlc(module, text, work)
    if rc != 0:
        raise ToolError(module + ": " + out[-3000:])
    seen, res = set(), []
    for x in vlib.printed_json(out):
        k = str(x)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def refuted(module, work, **over):
    """A deliberately wrong model must be refuted, or the invariants mean nothing."""
    rc, out = vlib.tlc(module, vlib.cfg(module, **over), work)
    if "is violated" not in out:
        raise ToolError(f"{module} with {over} is not refuted:\n{out[-2000:]}")


def c12(check):
    d, g = vlib.model_check("Markers", vlib.cfg("Markers"), check.work)
    check.coverage.update(states=d, transitions=g)
    refuted("Markers", check.work, Leaky="TRUE")
    probes = marker_probes(emitted("Markers", check.work))
    probes += [Probe(f"{t} is {m}", f"fn NAME(w: &{t}) {{ {m.lower()}(w); }}", ok, MARK_CODES, info=t) for t, m, ok in FIXED]
    crates = {"yes": [p for p in probes if p.ok], "no": [p for p in probes if not p.ok]}
    decide(check, crates, check.work)


def borrow_text(p, salt):
    fam = p["fam"]
    stores = ["dyn Any", "dyn Send", "dyn Sync", "dyn Send + Sync"]
    s = stores[zlib.crc32(repr((p, salt)).encode()) % 4]
    if p["ctor"] == "alias":
        s = "dyn Any"
    xs = "let x = &STATIC;" if p["data"] == "static" else "let y = 5u32; let x = &y;"
    al = "let al = &ALLOC;" if p["alloc"] == "static" else "let bl = Both(PhantomData); let al = &bl;"
    f, fp = "move |a: u32| -> u32 { a + *x }", "move |(a,): (u32,)| -> u32 { a + *x }"
    F = {"written": "F", "declared": "Declared", "relaxed": "Relaxed", "lax": 'extern "C" fn(u32) -> u32'}[p["sig"]]
    call, cc = "p(1);", "cc::C"
    if p["sig"] in ("declared", "relaxed"):
        cc = F + "::cc()"
        f, fp, call = "move |a: &u32| -> u32 { *a + *x }", "move |(a,): (&u32,)| -> u32 { *a + *x }", "(p.0)(&1);"
    W = f"{WRAP[fam]}::<{F}, {s}, _>"
    suffix = {"dyn Any": "", "dyn Send": "_send", "dyn Sync": "_sync", "dyn Send + Sync": "_send_sync"}[s]
    ctor = {"new": f"{W}::new_in({f}, al)", "cc": f"{W}::with_cc_in({cc}, {f}, al)",
            "try": f"{W}::try_with_cc_in(cc::C, {f}, al).ok().unwrap()",
            "thunk": f"{W}::with_thunk_in(thunk_factory::{MAKE[fam]}{suffix}::<{F}, _>({fp}), al)",
            "pair": f"{W}::try_with_thunk_in((cc::C, {f}), al).ok().unwrap()",
            "alias": f"{ALIAS[fam]}::<{F}, _>::new_in({f}, al)"}[p["ctor"]]
    typed = True
    convs = ""
    for c in p["convs"]:
        U = f"{UNTYPED[fam]}::<{s}, _>"
        if c == "upcast":
            s = "dyn Any"
            convs += "let w = w.upcast::<dyn Any>(); "
        elif c == "untype":
            convs += "let w = w.into_untyped(); "
            typed = False
        elif c == "from":
            convs += f"let w = {U}::from(w); "
            typed = False
        elif c == "moved":
            convs += "let mut v = vec![w]; let w = v.pop().unwrap(); "
        elif c == "lengthen":
            t = f"{WRAP[fam]}<{F}, {s} + 'static, _>" if typed else f"{UNTYPED[fam]}<{s} + 'static, _>"
            convs += f"let w: {t} = w; "
    static = f"{WRAP[fam]}<{F}, {s} + 'static, &'static Both>" if typed else f"{UNTYPED[fam]}<{s} + 'static, &'static Both>"
    pre = f"{xs} {al} let w = {ctor}; {convs}"
    get = "w.leak()" if fam == "once" else "w.bare()"
    use = p["use"]
    if use == "":
        return f"fn NAME() {{ {pre} }}"
    if use == "inside":
        then = "drop(w);" if fam == "once" else f"let p = w.bare(); unsafe {{ {call} }}" if typed else "let p = w.bare();"
        return f"fn NAME() {{ {pre} {then} }}"
    if use == "after":
        return f"fn NAME() {{ let mut out; {{ {pre} out = w; }} drop(out); }}"
    if use == "return":
        return f"fn NAME() -> {static} {{ {pre} w }}"
    if use == "thread":
        return f"fn NAME() {{ {pre} keep(w); }}"
    if use == "leak":
        return f"fn NAME() {{ {pre} let _ = w.leak(); }}"
    if use == "bare":
        return f"fn NAME() {{ {pre} let _ = w.bare(); }}"
    if use == "twice":
        then = "let _ = w.leak();" if p["data"] == p["alloc"] == "static" else "drop(w);"
        return f"fn NAME() {{ {pre} {then} drop(w); }}"
    if use == "through":
        return f"fn NAME() {{ {pre} let p = {get}; let _ = FnPtr::call(p, {'(&1,)' if '&' in call else '(1,)'}); }}"
    if use == "conjure":
        return f"fn NAME() {{ {pre} let p = {get}.to_ptr(); let _ = <{F} as FnPtr>::from_ptr(p); }}"
    assert use == "safe"
    return f"fn NAME() {{ {pre} let p = {get}; {call if typed else f'let p: {F} = core::mem::transmute(p);'} }}"


BORROW_CODES = {"E0597", "E0515", "E0716", "E0521", "E0310", "E0382", "E0505", "E0506"}
TYPE_CODES = {"E0599", "E0133", "E0624", "E0277"}


def c20(check):
    d, g = vlib.model_check("Borrow", vlib.cfg("Borrow"), check.work)
    check.coverage.update(states=d, transitions=g)
    refuted("Borrow", check.work, Forget="TRUE")
    refuted("Borrow", check.work, Loose="TRUE")
    programs = emitted("Borrow", check.work, Bound=1 if QUICK else 2)
    crates = {"yes": [], "type": [], "borrow": []}
    for p in programs:
        phase = "yes" if p["ok"] else "type" if p["use"] in ("bare", "safe", "through", "conjure") or p["sig"] == "lax" else "borrow"
        codes = {"yes": (), "type": TYPE_CODES, "borrow": BORROW_CODES}[phase]
        crates[phase].append(Probe(" ".join(f"{k}={v}" for k, v in p.items()), borrow_text(p, vlib.SEED), p["ok"], codes, info=p))
    decide(check, crates, check.work, TYPES)


NAMES = "abcdefg"


def declaration(p):
    """The declaration and whether something can be made of it."""
    lives = [f"'{x}" for x in NAMES[:p["lives"]]]
    bound = f"for<{', '.join(lives)}> " if lives else ""
    if p["form"] == "fn":
        tys = []
        for i in range(p["args"]):
            tys.append(f"&{lives[i % len(lives)]} u32" if lives else "u32")
        rest = lives[p["args"]:]      # lifetimes that did not fit go into one argument
        if rest:
            tys[-1] = "(" + ", ".join([tys[-1]] + [f"&{x} u32" for x in rest]) + ")"
        gap = {"none": None, "reference": "&u32", "path": "std::slice::Iter<'_, u32>", "nested": "Option<(u8, &u32)>",
               "mutable": "&mut u32", "result": "&u32"}[p["gap"]]
        if gap:
            tys[0] = gap
        ret = " -> &u32" if p["gap"] == "result" else f" -> &{lives[0]} u32" if lives and not gap else " -> u8"
        right = f'{bound}extern "C" fn({", ".join(tys)}){ret}'
    else:
        right = {"ref": "&'static u32", "tuple": "(u32, u32)", "path": "Option<unsafe fn(u32)>",
                 "dyn": "Box<dyn Fn(u32)>", "array": "[unsafe fn(u32); 2]", "ptr": "*const u32"}[p["form"]]
    where = {"crate": "pub(crate) ", "same": "", "outside": ""}[p["seen"]]
    decl = f"closure_ffi::bare_hrtb! {{ {where}type T = {right}; }}"
    use = "fn u(x: T) -> *const () { let _ = T::cc(); x.to_ptr() }"
    if p["seen"] == "same":
        return f"mod NAME {{ use super::*; {decl} {use} }}"
    return f"mod NAME {{ pub mod inner {{ use crate::*; {decl} }} use inner::T; use crate::*; {use} }}"


def declarations(check):
    """Decides which declarations the macro accepts (part of C16)."""
    d, g = vlib.model_check("Declare", vlib.cfg("Declare"), check.work)
    check.count("declare_states", d)
    crates = {"yes": [], "macro": [], "private": []}
    for p in emitted("Declare", check.work, MaxArgs=3 if QUICK else 12):
        tag = "yes" if p["usable"] else "private" if p["accepted"] else "macro"
        crates[tag].append(Probe("declaration " + " ".join(f"{k}={v}" for k, v in p.items()), declaration(p), p["usable"],
                                 {"E0603", "E0433"} if tag == "private" else (), info=p))
    decide(check, crates, check.work)


def run(prop):
    check = Check(prop)
    {"C12": c12, "C20": c20}[prop](check)
    check.coverage["traces_validated_against_impl"] = check.coverage.pop("probes", 0)
    return check.finish()
