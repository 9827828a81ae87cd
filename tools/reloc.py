"""Relocation of thunk prologues: programs of Reloc.tla run through the library and the processor."""
import os
import random
import subprocess

import encode
import vlib
from ext import EXT
from vlib import Check, QUICK, SEED, ToolError

M64 = (1 << 64) - 1
STATIC = "-C relocation-model=static"
STATIC_LANES = ("i686", "armv7", "thumbv7neon")      # symbol addresses must be known when encoding
ADDRESS_ONLY = {"lea", "lea32", "adrp", "leac", "pre", "leaa"}
STORES = {"xchg", "st", "st32", "st8", "sti", "rmw", "stv", "popm", "sta"}
# registers that the rows of Ext.tla use, and others that some of them change
EXT_REGS = {"x64": (0, 1, 2, 7), "x86": (2, 3, 6, 7), "a64": (1, 2, 3, 4), "a32": (4, 5, 6, 7), "t32": (4, 5, 6, 7)}
EXT_OTHER = {"x64": {3}, "a64": {30}, "a32": {14}, "t32": {14}}


def fill(o):
    return (o * 2654435761 & 0xffffffff) >> 24


def content(o, n=8):
    return int.from_bytes(bytes(fill(o + k) for k in range(n)), "little")


def mix(a, b):
    x = (a * 0x9E3779B97F4A7C15 ^ b * 0xD1B54A32D192ED03) & M64
    x ^= x >> 29
    x = x * 0xBF58476D1CE4E5B9 & M64
    return x ^ x >> 32


def sx(v, bits):
    v &= (1 << bits) - 1
    return (v - (1 << bits) if v >> bits - 1 else v) & M64


class Harness:
    """The reloc harness of one lane, built from /repo as it is."""

    def __init__(self, arch, release=False):
        self.arch = encode.ARCHS[arch]
        lane = self.arch.lane
        flags = STATIC if lane in STATIC_LANES else ""
        self.build = lane + ("-release" if release else "")
        path = vlib.must(vlib.cargo_build("reloc", lane, release=release, rustflags=flags, tag="-r" if release else "",
                                          jobs=3), f"reloc for {self.build}")
        self.cmd = vlib.runner(lane) + [os.path.join(path, "reloc")]
        self.lane = lane
        self.info = self.start([])
        self.donors = [int(x) for x in self.info["donors"].split(",")]
        self.calibrate()

    def start(self, args):
        p = subprocess.run(self.cmd + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        line = p.stdout.split("\n")[0]
        if not line.startswith("info "):
            raise ToolError(f"reloc harness on {self.lane}: {p.stdout[-500:]}{p.stderr[-500:]}")
        return parse_fields(line.split(" ")[1:])

    def run(self, cases, work, tag, crashes=25):
        """cases: list of text lines; returns one result per case: (kind, fields, fields of the run in place).
        After that many crashes the remaining cases are skipped."""
        path = os.path.join(work, f"cases-{self.arch.name}-{tag}")
        cases = list(cases)
        with open(path, "w") as f:
            f.write("\n".join(c for c in cases) + "\n")
        res, home = [None] * len(cases), [None] * len(cases)
        first = 0
        while first < len(cases):
            p = subprocess.run(self.cmd + [path, str(first)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=3000)
            arena, last = None, None
            done = False
            for line in p.stdout.split("\n"):
                w = line.split(" ")
                if w[0] == "info":
                    arena = int(parse_fields(w[1:])["arena"])
                elif w[0] == "begin":
                    last = int(w[1])
                elif w[0] == "res" and w[2] == "refused":
                    res[int(w[1])] = ("refused", {})
                elif w[0] in ("home", "res") and len(w) > 9 and w[2] == "ok":
                    d = parse_fields(w[3:])
                    out = {k: int(d[k]) for k in ("mark", "closure", "flags", "sp", "below") if k in d}
                    out.update({k: [int(x) for x in d[k].split(",") if x] for k in ("regs", "vec", "stack", "mem", "more")})
                    out["arena"] = arena
                    if w[0] == "home":
                        home[int(w[1])] = out
                    else:
                        res[int(w[1])] = ("ok", out)
                elif w[0] == "end":
                    done = True
            if done:
                break
            if last is None:
                raise ToolError(f"reloc harness on {self.lane}: {p.stdout[-300:]}{p.stderr[-1000:]}")
            if res[last] is None:
                rc = p.returncode
                if rc not in (-4, -5, -6, -7, -8, -11, -14, 132, 133, 134, 135, 136, 139, 142):
                    raise ToolError(f"reloc harness on {self.lane} ended with {rc}: {p.stderr[-1000:]}")
                sig = -rc if rc < 0 else rc - 128
                res[last] = ("crash" if home[last] else "lost", {"signal": sig})
                crashes -= 1
                if crashes == 0:
                    res = [r or ("skipped", {}) for r in res]
                    break
            first = last + 1
        if None in res:
            raise ToolError(f"reloc harness on {self.lane}: no result for case {res.index(None)}")
        return [(k, o, h) for (k, o), h in zip(res, home)]

    def calibrate(self):
        """Which registers the lookup itself changes."""
        mods = [m for m, n in enumerate(self.donors) if n]
        lines = [f"{k + 1} {m} 0 {1 + (k * 5) * 4}      " for k, m in enumerate(mods)]
        work = vlib.workdir(f"cal-{self.build}-{os.getpid()}")
        res = self.run(lines, work, "cal")
        clob, cl = set(), set()
        for k, (kind, out, home) in enumerate(res):
            if kind != "ok":
                raise NoLookup(f"{self.lane}: a template that is nothing but the lookup: {kind} {out}")
            for r in range(self.arch.nreg):
                if r == self.arch.sp or (self.arch.name == "a64" and r == 17):
                    continue
                want = mix(k + 1, r + 1) & (M64 if self.arch.word == 8 else 0xffffffff)
                if out["regs"][r] == out["closure"]:
                    cl.add(r)
                elif out["regs"][r] != want:
                    clob.add(r)
        vlib.shutil.rmtree(work, ignore_errors=True)
        if len(cl) != 1:
            raise NoLookup(f"{self.lane}: the lookup leaves the closure address in registers {sorted(cl)}")
        self.cl, self.clob = cl.pop(), clob


class NoLookup(Exception):
    """The library does not even relocate an empty prologue: reported as a violation."""


def parse_fields(ws):
    return dict(w.split("=", 1) for w in ws if "=" in w)


class Case:
    """One abstract program made concrete."""

    def __init__(self, h, prog, cid, rng, place=None, offset=None):
        self.h, self.spec, self.id, self.rng = h, prog, cid, rng
        self.prog = [dict(q) for q in prog["p"]]
        self.opaque = any(q["op"] == "ext" for q in self.prog)
        self.a = h.arch(self)
        self.base0 = int(h.info["arena"]) if h.arch.word == 4 else 0
        self.mid = int(h.info["mid"])
        self.choose_regs()
        n = len(self.prog)
        self.imms = [0] + [rng.randrange(1, 1 << 16) for _ in range(n)]
        stored = {q["y"] for q in self.prog if q["op"] in STORES or q["op"] == "ext"}
        for q in self.prog:
            q["v"] = rng.randrange(h.arch.variants.get(q["op"], 1))
            if q["op"] == "pad":
                # what is position-dependent has to be within reach of a literal (4 KB on 32-bit ARM)
                pads = sum(x["op"] == "pad" for x in self.prog)
                near = self.opaque or any(x["y"] > 0 for x in self.prog)
                q["n"] = rng.choice([20, 200, 900 // pads if near else 4000])
            if q["op"] == "cmpm" and q["y"] in stored:
                q["v"] = 0
        self.only_zero_flag = not any(q["op"] in ("alu", "alua", "rmw", "cmpm", "ext") for q in self.prog)
        self.zinit = h.arch.zf if prog["z"] else 0
        others = h.arch.flags & ~h.arch.zf & rng.getrandbits(32)
        if h.arch.name in ("x64", "x86"):
            if self.only_zero_flag and not self.opaque and rng.random() < 0.7:
                others &= 4
            else:
                self.only_zero_flag = False
            others |= 0x202
        self.flags = self.zinit | others
        self.sym = {}
        self.doors = {q["y"] for q in self.prog if q["op"] == "jmem"}
        self.out = self.rets = None
        self.layout(offset)
        self.place_symbols()
        self.bytes = b"".join(self.a.enc(q, self.at[k], k + 1) for k, q in enumerate(self.prog))
        self.place = place if place is not None else rng.randrange(4) + 4 * rng.choice(
            [0, rng.randrange(64), rng.randrange(4096)]) + (rng.randrange(512) << 14)

    def choose_regs(self):
        h, rng = self.h, self.rng
        used = {x for q in self.prog for x in (q["d"], q["s"])}
        call = any(q["op"] == "call" for q in self.prog)
        lr = {"a64": 30, "a32": 14, "t32": 14}.get(h.arch.name)
        self.cl = h.cl
        if h.info["choice"] == "1" and rng.random() < 0.8:
            taken = {*EXT_REGS[h.arch.name], *EXT_OTHER[h.arch.name]} if self.opaque else set()
            self.cl = rng.choice([r for r in h.arch.pool if r not in taken and r not in h.clob])
        pool = [r for r in h.arch.pool if r != self.cl and r not in h.clob and not (call and r == lr)]
        self.ignore = {lr} if call else set()
        if any(q["op"] == "jrc" for q in self.prog):
            pool = [r for r in pool if r != 1] if self.cl != 1 else pool
        if self.opaque:
            fixed = EXT_REGS[h.arch.name]
            if not set(fixed) <= set(pool) or any(q["op"] == "ldx" for q in self.prog):
                raise encode.Misfit
            self.regs = {0: self.cl, **{k + 1: r for k, r in enumerate(fixed)}}
            self.vecs = {1: 0, 2: 1}
            return
        if any(q["op"] == "ldx" for q in self.prog):
            self.index = pool.pop(rng.randrange(len(pool)))
            self.ignore.add(self.index)
        self.regs = {0: self.cl}
        if any(q["op"] == "ldd" for q in self.prog) and h.arch.name == "a32":
            pairs = [(r, r + 1) for r in range(0, 12, 2) if r in pool and r + 1 in pool]
            self.regs[1], self.regs[2] = rng.choice(pairs)
        if h.arch.name == "t32" and rng.random() < 0.6:
            low = [r for r in pool if r < 8]
            pool = low if len(low) >= 5 else pool
        rest = [r for r in pool if r not in self.regs.values()]
        rng.shuffle(rest)
        for k in (1, 2, 3, 4):
            if k not in self.regs:
                self.regs[k] = rest.pop() if rest else None
        if any(self.regs.get(k) is None for k in used if k > 0):
            raise encode.Misfit
        nv = 8 if h.arch.name in ("x86", "a32", "t32") else 16
        self.vecs = dict(zip((1, 2), rng.sample(range(nv), 2)))

    def layout(self, offset):
        h = self.h
        for _ in range(3):
            size = [len(self.a.enc({**q, "y": -1, "t": -1}, 0, k + 1)) for k, q in enumerate(self.prog)]
            total = sum(size)
            offs = [o for o in range(0, 16, h.arch.unit) if h.donors[(o + total) % 16]]
            if offset is not None:
                if offset not in offs:
                    raise encode.Misfit
                offs = [offset]
            self.off = self.rng.choice(offs)
            self.base = self.base0 + self.mid + self.off
            self.at = [self.base + sum(size[:k]) for k in range(len(size))]
            self.end = self.base + total
            self.tail = self.end + h.donors[(self.off + total) % 16]
            again = False
            for k, q in enumerate(self.prog):
                if q["op"] == "jcc" and not q.get("far"):
                    try:
                        self.a.enc({**q, "y": -1}, self.at[k], k + 1)
                    except encode.Misfit:
                        q["far"] = again = True
            if not again:
                break
        taken = [(self.base - 16, self.tail + 32)]
        if any(q["op"] in ("jout", "jmem") for q in self.prog):
            # before or after the template, near or not so near
            o = self.rng.choice([-1, 1]) * self.rng.choice([64, 200, 1000, 20000]) & ~15
            self.out = (self.base + o if o < 0 else self.tail + 32 + o) & ~15
            taken.append((self.out - 16, self.out + 32))
        if any(q["op"] == "call" for q in self.prog):
            self.rets = (self.base - 2000) & ~15
            taken.append((self.rets - 16, self.rets + 32))
        self.taken = taken

    def padding(self, q):
        return q["n"]

    def label(self, t):
        if t == -1 or not hasattr(self, "at"):
            return None
        return self.at[t - 1] if t <= len(self.at) else self.end

    def addr(self, y):
        return self.sym[y]

    def differs(self, y):
        return (content(self.sym[y] - self.base0, 4) + 1) & 0x7fffffff if y in self.sym else 1

    def place_symbols(self):
        rng, a = self.rng, self.a
        lo_arena, hi_arena = self.base0 + 64, self.base0 + int(self.h.info["size"]) - 64
        for y in sorted({q["y"] for q in self.prog if q["y"] > 0}):
            uses = [(k, q) for k, q in enumerate(self.prog) if q["y"] == y]
            memory = any(q["op"] not in ADDRESS_ONLY for _, q in uses)
            lo, hi, al = -(1 << 40), 1 << 50, 1
            for k, q in uses:
                l, u, g = a.reach(q["op"], self.at[k])
                lo, hi, al = max(lo, l), min(hi, u), max(al, a.align(q) or g)
            if memory:
                lo, hi = max(lo, lo_arena), min(hi, hi_arena)
            elif self.h.arch.word == 4:
                lo, hi = max(lo, 0), min(hi, (1 << 32) - 64)
            if lo > hi:
                raise encode.Misfit
            mid = self.at[uses[0][0]]
            for attempt in range(300):
                m = rng.randrange(6)
                if m == 0:
                    t = lo + rng.randrange(16) * al
                elif m == 1:
                    t = hi - rng.randrange(16) * al
                elif m == 2:
                    t = rng.randrange(lo, hi + 1)
                elif m == 3:
                    t = mid + rng.choice([-1, 1]) * (1 << rng.randrange(5, 34)) + rng.randrange(-8, 9)
                elif m == 4 and self.h.arch.name == "a32":
                    t = mid + 8 + rng.choice([-1, 1]) * (rng.randrange(1, 256) << 2 * rng.randrange(0, 8))
                else:
                    t = mid + rng.choice([-1, 1]) * rng.randrange(32, 1200)
                t = t // al * al
                if t < lo or t > hi:
                    continue
                if self.base <= t < self.tail:
                    continue
                if memory:
                    if any(l - 16 < t < h for l, h in self.taken):
                        continue
                    if 0 in [fill(t - self.base0 + k) for k in range(16)]:
                        continue
                self.sym[y] = t
                try:
                    for k, q in uses:
                        a.enc(q, self.at[k], k + 1)
                except encode.Misfit:
                    continue
                break
            else:
                raise encode.Misfit
            if memory:
                self.taken.append((self.sym[y], self.sym[y] + 16))
        self.watch = [y for y in self.sym if any(q["y"] == y and q["op"] not in ADDRESS_ONLY for q in self.prog)]

    def line(self):
        w = ",".join(str(self.sym[y] - self.base0) for y in self.watch)
        o = str(self.out - self.base0) if self.out else ""
        at = [f"{self.rets - self.base0}:{self.h.arch.ret.hex()}"] if self.rets else []
        # what jumps through memory find there
        thumb = 1 if self.h.arch.name == "t32" else 0
        at += [f"{self.sym[y] - self.base0}:+{self.out - self.base0 + thumb}" for y in sorted(self.doors)]
        r = ",".join(at)
        cl = str(self.cl) if self.h.info["choice"] == "1" else ""
        pointer = str(self.regs[4]) if self.opaque else ""
        return f"{self.id} {self.off} {self.flags} {self.place} {self.bytes.hex()} {w} {o} {r} {cl} {pointer}"

    def spoiled(self):
        """Registers that say nothing about the prologue."""
        S, arch = self.spec, self.h.arch
        return {arch.sp, *self.ignore, *({17} if arch.name == "a64" else ()),
                *(self.h.clob | {self.cl} if not S["out"] else ())}

    # ------------------------------------------------------------ expected values

    def value(self, t, arena):
        mask = M64 if self.h.arch.word == 8 else 0xffffffff
        v = lambda x: self.value(x, arena)
        k = t[0]
        if k == "r" and t[1] == 4 and self.opaque:
            return int(self.h.info["stack"]) - int(self.h.info["arena"]) + arena - 1024
        if k == "r":
            return mix(self.id, self.regs[t[1]] + 1) & mask
        if k == "i":
            return self.imms[t[1]]
        if k == "a":
            return self.sym[t[1]] - self.base0 + arena & mask
        if k == "page":
            return v(t[1]) & ~4095
        if k == "pc":
            return self.a.pc(t[1] - 1, self.at[t[1] - 1]) - self.base0 + arena
        if k == "m":
            if t[1] in self.doors:
                n = 8 * self.h.arch.word
                door = self.out - self.base0 + arena + (1 if self.h.arch.name == "t32" else 0)
                return door & mask | content(self.sym[t[1]] - self.base0) >> n << n
            return content(self.sym[t[1]] - self.base0)
        if k == "hi":
            return v(t[1]) >> 32
        if k == "+":
            return v(t[1]) + v(t[2]) & mask
        if k in ("z32", "z16", "z8"):
            return v(t[1]) & (1 << int(k[1:])) - 1
        if k in ("s32", "s16", "s8"):
            return sx(v(t[1]), int(k[1:])) & mask
        if k in ("ins8", "ins16", "ins32"):
            m = (1 << int(k[3:])) - 1
            return v(t[1]) & ~m | v(t[2]) & m
        if k == "low":
            return self.vector(t[1], arena)[0]
        raise KeyError(k)

    def vector(self, t, arena, reg=None):
        if t[0] == "x":
            n = self.vecs[t[1]]
            return [mix(self.id, 2 * n + 100), mix(self.id, 2 * n + 101)]
        if t[0] == "v":
            high = mix(self.id, 2 * reg + 101) if self.h.arch.name in ("a32", "t32") else 0
            return [self.value(t[1], arena), high]
        if t[0] == "q":
            return [self.value(t[1], arena), content(self.sym[t[2][1]] - self.base0 + 8)]
        raise KeyError(t[0])

    def known(self, t):
        """The term has no opaque part (rows of Ext.tla may change vector registers)."""
        return t[0] != "f" and not (self.opaque and t[0] in ("x", "v", "q")) and \
            all(self.known(x) for x in t[1:] if isinstance(x, list))

    def against_home(self, out, home):
        """Differences between the copy and the prologue run in its place."""
        bad = []
        def chk(what, got, want):
            if got != want:
                bad.append(f"{what} is {got:#x}, in the original place {want:#x}")
        skip = self.spoiled()
        for r in range(self.h.arch.nreg):
            if r not in skip:
                chk(f"register {r}", out["regs"][r], home["regs"][r])
        for f, name in (("mark", "exit"), ("sp", "stack pointer"), ("below", "memory below the stack pointer (hash)")):
            chk(name, out[f], home[f])
        mask = self.h.arch.flags
        chk("flags", out["flags"] & mask, home["flags"] & mask)
        for f, name in (("vec", "vector half"), ("stack", "stack word"), ("mem", "memory of symbol"),
                        ("more", "memory after symbol")):
            if len(out[f]) != len(home[f]):
                bad.append(f"{name}: {len(out[f])} values, in the original place {len(home[f])}")
            for k, (a, b) in enumerate(zip(out[f], home[f])):
                chk(f"{name} {k}", a, b)
        return bad

    def compare(self, out, place="copy"):
        """Differences between the recorded state and the one of the specification."""
        S, arena, arch = self.spec, out["arena"], self.h.arch
        mask = M64 if arch.word == 8 else 0xffffffff
        bad = []
        def chk(what, got, want):
            if got != want:
                bad.append(f"{what} is {got:#x}, should be {want:#x}")
        chk("exit", out["mark"], 2 if S["out"] else 0)
        byphys = {self.regs[k]: k for k in range(len(S["R"])) if self.regs.get(k) is not None}
        for r in range(arch.nreg):
            if r == arch.sp or r in self.ignore or (arch.name == "a64" and r == 17):
                continue
            if r in self.h.clob and not S["out"] and place == "copy":
                continue
            if r == self.cl and not S["out"] and place == "copy":
                chk(f"closure address in register {r}", out["regs"][r], out["closure"])
            elif r in byphys:
                if self.known(S["R"][byphys[r]]):
                    chk(f"register {r}", out["regs"][r], self.value(S["R"][byphys[r]], arena) & mask)
            elif not self.opaque:
                chk(f"register {r}", out["regs"][r], mix(self.id, r + 1) & mask)
        nv = len(out["vec"]) // 2
        vphys = {n: k for k, n in self.vecs.items() if k <= len(S["V"])}
        for n in range(0 if self.opaque else nv):
            want = self.vector(S["V"][vphys[n] - 1] if n in vphys else None, arena, n) if n in vphys else \
                [mix(self.id, 2 * n + 100), mix(self.id, 2 * n + 101)]
            chk(f"vector register {n}", out["vec"][2 * n] | out["vec"][2 * n + 1] << 64, want[0] | want[1] << 64)
        chk("stack depth", -out["sp"], arch.slot * len(S["K"]))
        for j, t in enumerate(reversed(S["K"])):
            k = j * (arch.slot // arch.word)
            if k < len(out["stack"]) and self.known(t):
                chk(f"stack word {j}", out["stack"][k], self.value(t, arena) & mask)
        for y, got in zip(self.watch, out["mem"]):
            if self.known(S["M"][y - 1]):
                chk(f"memory of symbol {y}", got, self.value(S["M"][y - 1], arena) & M64)
        if S["fl"]:
            chk("zero flag", out["flags"] & arch.zf, arch.zf if S["zf"] else 0)
        else:
            chk("flags", out["flags"] & arch.flags, self.flags & arch.flags)
        return bad

    def describe(self):
        return {"arch": self.h.arch.name, "program": self.prog, "initial_zero_flag": self.spec["z"],
                "prologue": self.bytes.hex(), "registers": self.regs, "vectors": self.vecs,
                "symbols_relative_to_template": {y: t - self.base for y, t in self.sym.items()},
                "case_line": self.line()}


def program_text(prog):
    def one(q):
        if q["op"] == "ext":
            return "{" + q["k"].replace("@", f"@{q['y']}") + "}"
        w = [q["op"]]
        for k in "dsyt":
            if q[k] >= 0:
                w.append({"d": "r", "s": "r", "y": "@", "t": "->"}[k] + str(q[k]))
        return " ".join(w)
    return "; ".join(one(q) for q in prog)


def generate(work, arch, num=None, ops=None, seed=SEED, **over):
    """Programs printed by RelocGen; num: random walks, otherwise everything."""
    allops = ops or ALL_OPS
    over.setdefault("Exts", vlib.tla_set(EXT[arch]))
    text = vlib.cfg("RelocGen", Arch=f'"{arch}"', UseOps=vlib.tla_set(sorted(allops)), **over)
    extra = ["-simulate", f"num={num}", "-seed", str(seed), "-depth", "40"] if num else []
    rc, out = vlib.tlc("RelocGen", text, work, extra=extra)
    progs = vlib.printed_json(out)
    if rc != 0 or not progs:
        raise ToolError(f"RelocGen for {arch}:\n{out[-3000:]}")
    return progs


ALL_OPS = {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1", "lea", "lea32", "leac", "leaa", "adrp", "ld",
           "ld32", "lds32", "ld8z", "ld16z", "lds8", "lds16", "ld8m", "ld16m", "alu", "alua", "xchg", "cmov", "ldd",
           "ldc", "lda", "sta", "getpc", "getpc2", "addpc", "ldx", "st", "st32", "st8", "sti", "rmw", "ldv", "ldq",
           "stv", "pushm", "popm", "cmpm", "pre", "jcc", "jmp", "jout", "jrc", "cbz", "tbz", "call", "jmem", "ext"}


def concretise(h, progs, seed, copies=1, first_id=1):
    cases = []
    for k, p in enumerate(progs):
        for c in range(copies):
            rng = random.Random(f"{seed}-{h.arch.name}-{k}-{c}")
            for _ in range(4):
                try:
                    cases.append(Case(h, p, first_id + len(cases), rng))
                    break
                except encode.Misfit:
                    continue
    return cases


# ---------------------------------------------------------------------------- the checks

ARCHES = {"C07": ["x64", "x86"], "C08": ["a64", "a32", "t32"], "C09": ["x64", "x86", "a64", "a32", "t32"],
          "C10": ["x64", "x86", "a64", "a32", "t32"]}

SUPPORTED = {
    "x64": {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1", "lea", "lea32", "ld", "ld32", "lds32", "ld8z",
            "ld16z", "lds8", "lds16", "ld8m", "ld16m", "alu", "xchg", "cmov", "st", "st32", "st8", "sti", "rmw", "ldv",
            "ldq", "stv", "pushm", "popm", "cmpm", "jcc"},
    "x86": {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1", "lda", "sta", "alua", "leaa", "getpc"},
    "a64": {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1", "lea", "adrp", "ld", "ld32", "lds32", "jmp"},
    "a32": {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1", "lea", "ld", "ld8z", "ld16z", "lds8", "lds16",
            "ldd"},
}
SUPPORTED["t32"] = SUPPORTED["a32"]
for ops in SUPPORTED.values():
    ops.add("ext")

# exhaustive models of the scheme: operations, length; faults that TLC must refute
MC = {
    "x64": (["movi", "movr", "push", "z1", "lea", "ld", "ld8m", "cmov", "st", "jcc", "jout", "jmp", "ext"], 3,
            ["verbatim", "live", "straight", "disp", "opaque"]),
    "x86": (["movi", "movr", "push", "z1", "lda", "sta", "getpc", "getpc2", "jcc", "call"], 3, ["verbatim", "pc"]),
    "a64": (["movi", "push", "z1", "lea", "adrp", "ld", "ldv", "jmp", "cbz", "jout"], 3, ["verbatim", "simd"]),
    "a32": (["movi", "push", "z1", "lea", "ld", "ldd", "ldc", "leac", "jmp", "jcc", "getpc"], 3, ["verbatim", "cond"]),
    "t32": (["movi", "push", "z1", "lea", "ld", "ldd", "ldc", "ldv", "jmp", "cbz", "addpc"], 3, ["verbatim", "cond", "simd"]),
}


MC_EXTS = ["mov al, 5", "cmove rax, rcx", "imul rcx, [@], 7", "xchg rax, rcx"]


def model(check, arch):
    ops, n, faults = MC[arch]
    n += 0 if QUICK else 1
    over = dict(Arch=f'"{arch}"', UseOps=vlib.tla_set(ops), Exts=vlib.tla_set(MC_EXTS))
    if not QUICK:
        over.update(Regs="{0, 1}", Exts='{"mov al, 5"}')
    dist, gen = vlib.model_check("RelocMC", vlib.cfg("RelocMC", MaxLen=str(n), **over), check.work, workers=3)
    check.count("states", dist)
    check.count("transitions", gen)
    for f in faults:
        rc, out = vlib.tlc("RelocMC", vlib.cfg("RelocMC", Arch=f'"{arch}"', UseOps=vlib.tla_set(ops), MaxLen="3",
                                               Exts=vlib.tla_set(MC_EXTS), Fault=f'"{f}"'), check.work, workers=2)
        if "Invariant Same is violated" not in out:
            raise ToolError(f"{arch}: the scheme with fault '{f}' is not refuted:\n{out[-2000:]}")
        check.count("faulty_schemes_refuted")


def place_model(check):
    for al, rd in ((8, 1), (16, 1), (4, 4), (4, 1)):
        dist, gen = vlib.model_check("Place", vlib.cfg("Place", Align=al, Round=rd), check.work, workers=2)
        check.count("states", dist)
        check.count("transitions", gen)
        for f in ["tight", "writable"] + (["template"] if rd > 1 else []):
            rc, out = vlib.tlc("Place", vlib.cfg("Place", Align=al, Round=rd, Fault=f'"{f}"'), check.work)
            if "is violated" not in out:
                raise ToolError(f"placement with fault '{f}' is not refuted:\n{out[-2000:]}")
            check.count("faulty_schemes_refuted")


def programs(check, arch):
    """Programs of the specification: random ones of the supported forms and of all forms, all short ones."""
    w = check.work
    n = 1400 if QUICK else 9000
    jobs = [
        lambda: generate(w, arch, num=n, ops=SUPPORTED[arch], MaxLen="6" if QUICK else "9"),
        lambda: generate(w, arch, num=n, seed=SEED + 1, MaxLen="4" if QUICK else "7"),
        lambda: generate(w, arch, Rand="FALSE", MinLen="1", MaxLen="1", Regs="{0, 1, 2}", Syms="{1}", Vecs="{1}",
                         ops=ALL_OPS - {"ext"}),
        lambda: generate(w, arch, Rand="FALSE", MinLen="2", MaxLen="2", Regs="{0, 1, 2}" if not QUICK else "{0, 1}",
                         Syms="{1}", Vecs="{1}", ops=ALL_OPS - {"nop", "pad", "z0", "ext"} - ({"ldd"} if QUICK else set())),
        lambda: generate(w, arch, Rand="FALSE", Syms="{1}", Vecs="{1}", Shape='"probe"',
                         MinLen="2" if arch == "x64" else "1", MaxLen="3" if arch == "x64" else "2"),
        lambda: generate(w, arch, Rand="FALSE", MinLen="3", MaxLen="3" if QUICK else "4", Regs="{0, 1}", Syms="{1}",
                         Vecs="{1}", ops={"push", "pop", "movi", "call", "getpc", "getpc2", "addpc"}),
    ]
    if arch == "x64":
        jobs += [lambda n=n: generate(w, arch, Rand="FALSE", Syms="{1}", Vecs="{1}", Regs="{0, 1}", Shape='"last"', MinLen=n,
                                      MaxLen=n) for n in ("2", "3", "5")]
    rnd, wild, one, two, probe, three, *last = vlib.parallel(jobs, 4)
    last = [p for ps in last for p in ps]
    rng = random.Random(f"{SEED}-{arch}")
    limit = (6000 if arch == "x64" else 3000) if QUICK else 40000
    if len(two) > limit:
        two = rng.sample(two, limit)
    seen = {q["op"] for p in rnd + one for q in p["p"] if p["must"]}
    miss = SUPPORTED[arch] - seen - {"pop", "popm"}     # these need something on the stack
    if miss:
        raise ToolError(f"{arch}: no program that must be accepted uses {sorted(miss)}")
    return rnd, wild, one, two + probe + three, last


def self_test(check, case, out, home):
    """compare() and against_home() must notice every corrupted field of a good result."""
    if case.opaque or case.compare(out):
        return False
    r = next(x for x in range(case.h.arch.nreg) if x not in case.spoiled())
    fields = [("regs", r), ("sp", None), ("mark", None)]
    if out["vec"]:
        fields.append(("vec", 3))
    if case.watch:
        fields.append(("mem", 0))
    if case.spec["K"]:
        fields.append(("stack", 0))
    for f, k in fields:
        bad = dict(out)
        if k is None:
            bad[f] = out[f] + 4
        else:
            bad[f] = list(out[f])
            bad[f][k] ^= 1
        if not case.compare(bad) or not case.against_home(bad, home):
            raise ToolError(f"a corrupted '{f}' goes unnoticed")
        check.count("corrupted_results_rejected")
    bad = dict(out, below=out["below"] ^ 1)
    if not case.against_home(bad, home):
        raise ToolError("a change below the stack pointer goes unnoticed")
    bad = dict(out, flags=out["flags"] ^ case.h.arch.zf)
    if not case.compare(bad) or not case.against_home(bad, home):
        raise ToolError("a corrupted zero flag goes unnoticed")
    check.count("corrupted_results_rejected")
    return True


def judge(check, prop, h, cases, res, tested):
    """Report where the library disagrees with the specification."""
    shown, strange = 0, []
    for c, (kind, out, home) in zip(cases, res):
        if kind == "skipped":
            check.count("cases_skipped_after_crashes")
            continue
        odd = [f"signal {out['signal']}"] if kind == "lost" else c.compare(home, "home")
        if odd:
            strange.append(f"{h.build}: `{program_text(c.prog)}` run in place is not what the specification says: {odd[:3]}")
            continue
        check.count("runs_in_place")
        check.count("traces_validated_against_impl")
        check.count("accepted" if kind != "refused" else "refused")
        what = None
        if prop == "C09":
            check.count("must_be_accepted", 1 if c.spec["must"] else 0)
            if kind == "refused" and c.spec["must"]:
                what = "refused although every instruction is of a supported form"
        elif kind == "crash":
            what = f"running the relocated code ended with signal {out['signal']}"
        elif kind == "ok":
            bad = c.compare(out) + c.against_home(out, home)
            if bad:
                what = "relocated code differs from the original: " + "; ".join(bad[:4])
            elif not tested.get(h.build):
                tested[h.build] = self_test(check, c, out, home)
        if what:
            shown += 1
            if shown <= 3:
                check.violation(f"{h.build}: `{program_text(c.prog)}`: {what}", {"build": h.build, **c.describe()})
            check.count("mismatches")
    if strange:
        raise ToolError("\n".join(strange[:8]))


def run(prop):
    check = Check(prop)
    if prop == "C10":
        return run_places(check)
    archs = ARCHES[prop]
    hs, ps = {}, {}
    vs = [(a, False) for a in archs] + [(a, True) for a in archs if not QUICK or a in ("x64", "a64")]

    def build(a, r):
        try:
            hs[a, r] = Harness(a, r)
        except NoLookup as e:
            check.violation(f"empty prologue: {e}", {"arch": a, "release": r})

    def gen(a):
        ps[a] = programs(check, a)
    vlib.parallel([lambda a=a, r=r: build(a, r) for a, r in vs] + [lambda a=a: gen(a) for a in archs]
                  + [lambda a=a: model(check, a) for a in archs], 6)
    tested = {}

    def go(a, r):
        if (a, r) not in hs:
            return
        h = hs[a, r]
        rnd, wild, one, two, last = ps[a]
        if prop == "C09":
            wild, two = [p for p in wild if p["must"]], [p for p in two if p["must"]]
        progs = rnd + wild + one + two
        if r and QUICK:
            progs = rnd[:700] + one
        short = one + last
        cases = concretise(h, progs, SEED, copies=1) + concretise(h, short, SEED + 17, copies=2 if QUICK else 6,
                                                                  first_id=len(progs) + 1)
        judge(check, prop, h, cases, h.run((c.line() for c in cases), check.work, h.build), tested)
        check.count("programs", len(progs))
        check.coverage.setdefault("samples", []).append(f"{h.build}: {program_text(cases[0].prog)}")
    vlib.parallel([lambda a=a, r=r: go(a, r) for a, r in vs], 6)
    check.coverage["lanes"] = sorted(h.build for h in hs.values())
    if prop != "C09" and not check.violations and set(tested) != {h.build for h in hs.values()}:
        raise ToolError("no result to test the comparison with")
    check.assumptions = [
        "a prologue is a sequence of the instruction forms of Reloc.tla followed by the library's own lookup",
        "ARM code runs under qemu-user",
        "flags other than the zero flag are compared only when no instruction of the prologue sets flags",
    ]
    return check.finish()


def run_places(check):
    """Programs that are accepted, at all placements of Place.tla."""
    archs = ARCHES["C10"]
    hs, ps, pl = {}, {}, []

    def build(a):
        try:
            hs[a] = Harness(a)
        except NoLookup as e:
            check.violation(f"empty prologue: {e}", {"arch": a})

    def gen(a):
        n = 60 if QUICK else 200
        progs = generate(check.work, a, num=6 * n, ops=SUPPORTED[a], MinLen="2", MaxLen="6")
        ps[a] = [p for p in progs if p["must"] and any(q["op"] in ("lea", "ld", "getpc", "ldd", "adrp") for q in p["p"])][:n]
        ps[a] += [p for p in progs if p["must"]][:n // 3]
        if len(ps[a]) < n // 2:
            raise ToolError(f"{a}: only {len(ps[a])} programs")

    def places():
        rc, out = vlib.tlc("Place", vlib.cfg("PlaceGen"), check.work)
        pl.extend(vlib.printed_json(out))
        if rc != 0 or len(pl) != 20480:
            raise ToolError(f"placements: {out[-2000:]}")
    vlib.parallel([places, lambda: place_model(check)] + [lambda a=a: build(a) for a in archs] + [lambda a=a: gen(a) for a in archs], 6)
    check.count("placements", len(pl))

    def go(a):
        if a not in hs:
            return
        h = hs[a]
        rng = random.Random(f"{SEED}-{a}")
        mine = [p for p in pl if p["tmpl"] % h.arch.unit == 0]
        rng.shuffle(mine)
        mine = mine[:(8000 if a in ("x64", "x86") else 3000) if QUICK else len(mine)]
        cases, group = [], []
        for g, p in enumerate(ps[a]):       # first of all every program at an ordinary place
            for _ in range(4):
                try:
                    cases.append(Case(h, p, len(cases) + 1, random.Random(f"{SEED}-{a}-{g}-{_}"), place=0))
                    group.append(g)
                    break
                except encode.Misfit:
                    continue
        for k, p in enumerate(mine):
            g = k % len(ps[a])
            kind = ["near", "system", "far", "views"].index("views" if p["kind"] == "staged" else p["kind"])
            skew = p["rx"] + 16 * rng.randrange(0, 250)
            place = kind + (skew << 2) + (p["fill"] << 14) + ((p["kind"] == "staged") << 16) + (p["rw"] << 17)
            for _ in range(4):
                try:
                    # the same registers and encodings for all placements of a program
                    r2 = random.Random(f"{SEED}-{a}-{g}-{_}")
                    cases.append(Case(h, ps[a][g], len(cases) + 1, r2, place=place, offset=p["tmpl"]))
                    group.append(g)
                    break
                except encode.Misfit:
                    continue
        res = h.run((c.line() for c in cases), check.work, h.build, crashes=60)
        good, bad = {}, {}
        tested = False
        for c, g, (k, out, home) in zip(cases, group, res):
            if k in ("skipped", "lost"):
                check.count("cases_skipped_after_crashes")
                continue
            check.count("traces_validated_against_impl")
            what = None
            if k == "refused":
                what = "refused"
            elif k == "crash":
                what = f"signal {out['signal']}"
            else:
                d = c.compare(out) + c.against_home(out, home)
                what = "; ".join(d[:3])
                if not d and not tested:
                    tested = self_test(check, c, out, home)
            if what:
                bad.setdefault(g, []).append((c, what))
            else:
                good.setdefault(g, []).append(c)
        check.count("programs", len(set(group)))
        shown = 0
        for g, l in bad.items():
            if good and g not in good:
                check.count("programs_failing_everywhere")      # not a matter of placement
                continue
            shown += 1
            if shown <= 3:
                c, what = l[0]
                check.violation(f"{h.build}: `{program_text(c.prog)}` does not work at placement {c.place:#x} with the "
                                f"template at {c.off} mod 16 ({len(l)} placements do not, {len(good.get(g, []))} do): {what}",
                                {"build": h.build, **c.describe()})
        if not bad and not tested:
            raise ToolError("no result to test the comparison with")
    vlib.parallel([lambda a=a: go(a) for a in archs], 6)
    check.coverage["lanes"] = sorted(h.build for h in hs.values())
    check.coverage["samples"] = pl[:3]
    check.assumptions = [
        "the allocator returns blocks that satisfy the JitAlloc contract",
        "ARM code runs under qemu-user, where two views of one memory are not coherent: ARM uses staged copies instead",
    ]
    return check.finish()
