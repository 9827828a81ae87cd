"""Machine code for the abstract prologues of Reloc.tla, one class per architecture.

size(q) is fixed before addresses are known; enc(q, at) is given the address of the instruction and
looks operands up in self.case.  fits(q, at, target) says whether a form reaches a target.
"""
from ext import EXT

M64 = (1 << 64) - 1


class Misfit(Exception):
    pass


def le(v, n):
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")


def s_fits(v, bits):
    return -(1 << bits - 1) <= v < 1 << bits - 1


class Arch:
    unit = 1
    word = 8
    slot = 8            # bytes of stack per push
    variants = {}       # op -> number of encodings to choose from

    def __init__(self, case):
        self.c = case

    def r(self, k):
        return self.c.regs[k]

    def align(self, q):
        """Alignment of the operand, where it depends on the encoding chosen."""
        return None

    def imm(self, i):
        return self.c.imms[i]

    def target(self, q):
        return self.c.label(q["t"])

    def ext(self, q, at):
        """A row of Ext.tla: fixed bytes apart from the operand."""
        code, disp, end = EXT[self.name][q["k"]]
        code = bytes.fromhex(code)
        if disp is not None and q["y"] > 0:
            d = self.c.addr(q["y"]) - (at + end)
            if not s_fits(d, 32):
                raise Misfit
            code = code[:disp] + le(d, 4) + code[disp + 4:]
        return code


# ------------------------------------------------------------------ x86-64

class X64(Arch):
    name, lane = "x64", "x86_64"
    nreg, sp = 16, 4
    pool = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
    flags = 0x8d5       # arithmetic flags
    zf = 0x40
    variants = {"jcc": 6, "jout": 6, "ldv": 3, "ldq": 4, "lea32": 2, "alu": 4, "cmpm": 3, "nop": 4, "movi": 2,
                "lds8": 2, "ld8z": 2, "stv": 2, "rmw": 2, "push": 1}

    def rip(self, at, opcode, reg, y, w=0, pre=b"", imm=b"", force_rex=False):
        rex = 0x40 | w << 3 | (reg >> 3) << 2
        out = pre + (bytes([rex]) if rex != 0x40 or force_rex else b"") + opcode
        out += bytes([(reg & 7) << 3 | 5])
        n = len(out) + 4 + len(imm)
        d = 0 if y is None else self.c.addr(y) - (at + n)
        if not s_fits(d, 32):
            raise Misfit
        return out + le(d, 4) + imm

    def rr(self, opcode, reg, rm, w=1):
        return bytes([0x40 | w << 3 | (reg >> 3) << 2 | rm >> 3]) + opcode + bytes([0xc0 | (reg & 7) << 3 | rm & 7])

    def enc(self, q, at, i):
        op, v = q["op"], q.get("v", 0)
        d = self.r(q["d"]) if q["d"] >= 0 and op not in ("ldv", "ldq", "stv") else q["d"]
        s = self.r(q["s"]) if q["s"] >= 0 else 0
        y = q["y"] if q["y"] > 0 else None
        x = self.c.vecs[q["d"]] if op in ("ldv", "ldq", "stv") else 0
        rip = lambda *a, **k: self.rip(at, *a, **k)
        if op == "ext":
            return self.ext(q, at)
        if op == "jmem":
            return rip(b"\xff", 4, y)
        if op == "getpc":
            return b"\xe8\0\0\0\0" + bytes([0x40 | d >> 3, 0x58 | d & 7])
        if op == "pad":
            return b"\x90" * self.c.padding(q)
        if op == "nop":
            return [b"\x90", b"\x0f\x1f\x00", b"\x66\x90", b"\x0f\x1f\x44\x00\x00"][v]
        if op == "movi":
            m = self.imm(i)
            if v:
                return bytes([0x40 | d >> 3, 0xb8 | d & 7]) + le(m, 4)
            return bytes([0x48 | d >> 3, 0xc7, 0xc0 | d & 7]) + le(m, 4)
        if op == "movr":
            return self.rr(b"\x89", s, d)
        if op == "add":     # lea d, [d + s]: leaves flags alone
            a, b = (d, s) if s != 4 else (s, d)
            return bytes([0x48 | d >> 3 << 2 | b >> 3 << 1 | a >> 3, 0x8d, 0x44 | (d & 7) << 3,
                          (b & 7) << 3 | a & 7, 0])
        if op == "push":
            return bytes([0x40 | s >> 3, 0x50 | s & 7])
        if op == "pop":
            return bytes([0x40 | d >> 3, 0x58 | d & 7])
        if op == "z1":
            return bytes([0x48, 0x39, 0xe4])     # cmp rsp, rsp
        if op == "z0":
            return bytes([0x48, 0x85, 0xe4])     # test rsp, rsp
        if op == "lea":
            return rip(b"\x8d", d, y, w=1)
        if op == "lea32":
            return rip(b"\x8d", d, y, w=0, force_rex=v == 1)
        if op == "ld":
            return rip(b"\x8b", d, y, w=1)
        if op == "ld32":
            return rip(b"\x8b", d, y)
        if op == "lds32":
            return rip(b"\x63", d, y, w=1)
        if op == "ld8z":
            return rip(b"\x0f\xb6", d, y, w=v)
        if op == "ld16z":
            return rip(b"\x0f\xb7", d, y)
        if op == "lds8":
            return rip(b"\x0f\xbe", d, y, w=1)
        if op == "lds16":
            return rip(b"\x0f\xbf", d, y, w=1)
        if op == "ld8m":
            return rip(b"\x8a", d, y, force_rex=True)
        if op == "ld16m":
            return rip(b"\x8b", d, y, pre=b"\x66")
        if op == "alu":
            return rip(b"\x03", d, y, w=1)
        if op == "xchg":
            return rip(b"\x87", d, y, w=1)
        if op == "cmov":
            return rip(b"\x0f\x44", d, y, w=1)
        if op == "st":
            return rip(b"\x89", s, y, w=1)
        if op == "st32":
            return rip(b"\x89", s, y)
        if op == "st8":
            return rip(b"\x88", s, y, force_rex=True)
        if op == "sti":
            return rip(b"\xc7", 0, y, w=1, imm=le(self.imm(i), 4))
        if op == "rmw":
            return rip(b"\x01", s, y, w=1, pre=b"\xf0" if v else b"")
        if op == "ldv":     # movq, movsd, movlps-free zeroing forms
            if v == 0:
                return rip(b"\x0f\x7e", x, y, pre=b"\xf3")
            if v == 1:
                return rip(b"\x0f\x10", x, y, pre=b"\xf2")
            return self.vex(at, 0xfa, 0x7e, x, y)         # vmovq
        if op == "ldq":
            if v < 3:
                return rip([b"\x0f\x10", b"\x0f\x6f", b"\x0f\x10"][v], x, y, pre=[b"", b"\xf3", b"\x66"][v])
            return self.vex(at, 0xf8, 0x10, x, y)         # vmovups
        if op == "stv":
            return rip([b"\x0f\x13", b"\x0f\xd6"][v], x, y, pre=[b"", b"\x66"][v])
        if op == "pushm":
            return rip(b"\xff", 6, y)
        if op == "popm":
            return rip(b"\x8f", 0, y)
        if op == "cmpm":    # compared with something it does not equal
            k = self.c.differs(y) if y else 0
            if v == 0:
                return rip(b"\x83", 7, y, w=1, imm=b"\x00")
            if v == 1:
                return rip(b"\x80", 7, y, imm=le(k & 255, 1))
            return rip(b"\x81", 7, y, imm=le(k, 4))
        if op in ("jcc", "jout"):
            # e, be and le (ne, a and g) mean the same as long as no other flag is set
            cc = (4, 6, 14)[v // 2 if self.c.only_zero_flag else 0] | (0 if q["c"] else 1)
            near = v & 1 or op == "jout" or q.get("far")
            n = 6 if near else 2
            t = self.target(q) if op == "jcc" else self.c.out
            dd = 0 if t is None else t - (at + n)
            if not near and not s_fits(dd, 8):
                raise Misfit
            return bytes([0x0f, 0x80 | cc]) + le(dd, 4) if near else bytes([0x70 | cc]) + le(dd, 1)
        if op == "jmp":
            t = self.target(q)
            return b"\xe9" + le(0 if t is None else t - (at + 5), 4)
        if op == "jrc":     # rcx never zero: not taken
            return b"\xe3\x00"
        if op == "call":    # of something that returns at once
            t = self.c.rets
            return b"\xe8" + le(0 if t is None else t - (at + 5), 4)
        raise KeyError(op)

    def vex(self, at, b2, opcode, reg, y):
        out = bytes([0xc5, b2 & 0x7f | (0 if reg >> 3 else 0x80), opcode, (reg & 7) << 3 | 5])
        d = 0 if y is None else self.c.addr(y) - (at + len(out) + 4)
        if not s_fits(d, 32):
            raise Misfit
        return out + le(d, 4)

    def pc(self, i, at):
        return at + 5

    def reach(self, op, at):
        if op in ("lea", "lea32"):
            return at - (1 << 31) + 4096, at + (1 << 31) - 4096, 1
        return at - (1 << 31), at + (1 << 31) - 64, 1

    ret = b"\xc3"


# ------------------------------------------------------------------ x86

class X86(Arch):
    name, lane = "x86", "i686"
    nreg, sp = 8, 4
    word = slot = 4
    pool = [0, 1, 2, 3, 5, 6, 7]
    flags = 0x8d5
    zf = 0x40
    variants = {"jcc": 2, "nop": 4, "lda": 2, "movi": 2, "movr": 2}

    def absm(self, opcode, reg, y):
        return opcode + bytes([(reg & 7) << 3 | 5]) + le(self.c.addr(y) if y else 0, 4)

    def enc(self, q, at, i):
        op, v = q["op"], q.get("v", 0)
        d = self.r(q["d"]) if q["d"] >= 0 else 0
        s = self.r(q["s"]) if q["s"] >= 0 else 0
        y = q["y"] if q["y"] > 0 else None
        if op == "ext":
            return self.ext(q, at)
        if op == "jmem":
            return self.absm(b"\xff", 4, y)
        if op == "pad":
            return b"\x90" * self.c.padding(q)
        if op == "nop":
            return [b"\x90", b"\x0f\x1f\x00", b"\x66\x90", b"\x8d\x74\x26\x00"][v]
        if op == "movi":
            return (bytes([0xb8 | d]) if v else bytes([0xc7, 0xc0 | d])) + le(self.imm(i), 4)
        if op == "movr":
            return bytes([0x8b, 0xc0 | d << 3 | s]) if v else bytes([0x89, 0xc0 | s << 3 | d])
        if op == "add":
            return bytes([0x8d, 0x44 | d << 3, s << 3 | d, 0])
        if op == "push":
            return bytes([0x50 | s])
        if op == "pop":
            return bytes([0x58 | d])
        if op == "z1":
            return b"\x39\xe4"
        if op == "z0":
            return b"\x85\xe4"
        if op == "lda":
            return self.absm(b"\x8b", d, y)
        if op == "sta":
            return self.absm(b"\x89", s, y)
        if op == "alua":
            return self.absm(b"\x03", d, y)
        if op == "leaa":
            return self.absm(b"\x8d", d, y)
        if op == "getpc":
            return b"\xe8\0\0\0\0" + bytes([0x58 | d])
        if op == "getpc2":      # something between the call and the pop
            return b"\xe8\0\0\0\0\x90" + bytes([0x58 | d])
        if op in ("jcc", "jout"):
            cc = 4 if q["c"] else 5
            near = v == 1 or op == "jout" or q.get("far")
            n = 6 if near else 2
            t = self.target(q) if op == "jcc" else self.c.out
            dd = 0 if t is None else t - (at + n)
            if not near and not s_fits(dd, 8):
                raise Misfit
            return bytes([0x0f, 0x80 | cc]) + le(dd, 4) if near else bytes([0x70 | cc]) + le(dd, 1)
        if op == "jmp":
            t = self.target(q)
            return b"\xe9" + le(0 if t is None else t - (at + 5), 4)
        if op == "jrc":
            return b"\xe3\x00"
        if op == "call":
            t = self.c.rets
            return b"\xe8" + le(0 if t is None else t - (at + 5), 4)
        raise KeyError(op)

    def pc(self, i, at):
        return at + 5

    def reach(self, op, at):
        return 0, 1 << 32, 1

    ret = b"\xc3"


# ------------------------------------------------------------------ AArch64

class A64(Arch):
    name, lane = "a64", "aarch64"
    unit = 4
    nreg, sp = 31, 99
    slot = 16
    pool = [*range(0, 16), *range(19, 31)]
    flags = 0xf0000000
    zf = 0x40000000
    variants = {"ldv": 1, "cbz": 2, "movi": 1}

    def enc(self, q, at, i):
        if q["op"] == "ext":
            return self.ext(q, at)
        if q["op"] == "pad":
            return le(0xd503201f, 4) * self.c.padding(q)
        return le(self.word32(q, at, i), 4)

    def word32(self, q, at, i):
        op, v = q["op"], q.get("v", 0)
        vec = op in ("ldv", "ldq")
        d = self.c.vecs[q["d"]] if vec else self.r(q["d"]) if q["d"] >= 0 else 0
        s = self.r(q["s"]) if q["s"] >= 0 else 0
        y = q["y"] if q["y"] > 0 else None
        if op == "nop":
            return 0xd503201f
        if op == "movi":
            return 0xd2800000 | (self.imm(i) & 0xffff) << 5 | d
        if op == "movr":
            return 0xaa0003e0 | s << 16 | d
        if op == "add":
            return 0x8b000000 | s << 16 | d << 5 | d
        if op == "push":
            return 0xf81f0fe0 | s          # str x, [sp, #-16]!
        if op == "pop":
            return 0xf84107e0 | d          # ldr x, [sp], #16
        if op == "z1":
            return 0xeb1f03ff              # cmp xzr, xzr
        if op == "z0":
            return 0xf10007ff              # cmp sp, #1
        if op in ("lea", "adrp"):
            t = self.c.addr(y) if y else at
            dd = (t >> 12) - (at >> 12) if op == "adrp" else t - at
            if not s_fits(dd, 21):
                raise Misfit
            return (0x90000000 if op == "adrp" else 0x10000000) | (dd & 3) << 29 | (dd >> 2 & 0x7ffff) << 5 | d
        if op in ("ld", "ld32", "lds32", "ldv", "ldq", "pre"):
            base = {"ld": 0x58000000, "ld32": 0x18000000, "lds32": 0x98000000, "ldv": [0x5c000000, 0x1c000000][v],
                    "ldq": 0x9c000000, "pre": 0xd8000000}[op]
            t = self.c.addr(y) if y else at
            dd = t - at
            if dd & 3 or not s_fits(dd, 21):
                raise Misfit
            return base | (dd >> 2 & 0x7ffff) << 5 | (0 if op == "pre" else d)
        if op in Jump:
            t = self.target(q) if op != "jout" else self.c.out
            dd = 0 if t is None else t - at >> 2
            if op == "jmp":
                return 0x14000000 | dd & 0x3ffffff
            if op in ("jcc", "jout"):
                if not s_fits(dd, 19):
                    raise Misfit
                return 0x54000000 | (dd & 0x7ffff) << 5 | (0 if q["c"] else 1)
            if op == "cbz":
                return (0xb5000000 if q["c"] else 0xb4000000) | (dd & 0x7ffff) << 5 | s
            if op == "tbz":     # on the zero register
                return (0x36000000 if q["c"] else 0x37000000) | (dd & 0x3fff) << 5 | 31
        if op == "call":
            t = self.c.rets
            dd = 0 if t is None else t - at >> 2
            return 0x94000000 | dd & 0x3ffffff
        raise KeyError(op)

    def reach(self, op, at):
        if op == "adrp":
            return (at & ~4095) - (1 << 32), (at & ~4095) + (1 << 32) - 4096, 1
        if op in ("lea", "pre"):
            return at - (1 << 20), at + (1 << 20) - 4, 1 if op == "lea" else 4
        return at - (1 << 20), at + (1 << 20) - 4, 4

    ret = le(0xd65f03c0, 4)


Jump = ("jmp", "jcc", "jout", "cbz", "tbz")


# ------------------------------------------------------------------ ARM, A32

class A32(Arch):
    name, lane = "a32", "armv7"
    unit = 4
    word = slot = 4
    nreg, sp = 15, 13
    pool = [*range(0, 13), 14]
    flags = 0xf0000000
    zf = 0x40000000
    bias = 8
    variants = {"movi": 1}

    def enc(self, q, at, i):
        op = q["op"]
        d = self.r(q["d"]) if q["d"] >= 0 and op != "ldv" else 0
        s = self.r(q["s"]) if q["s"] >= 0 else 0
        y = q["y"] if q["y"] > 0 else None
        cond = 0xe
        if op in ("ldc", "leac", "jcc", "jout"):
            cond = 0 if q["c"] else 1
        cd = cond << 28
        base = at + 8
        off = (self.c.addr(y) - base) if y else 0
        U = 1 << 23 if off >= 0 else 0
        a = abs(off)
        if op == "ext":
            return self.ext(q, at)
        if op == "pad":
            return le(0xe320f000, 4) * self.c.padding(q)
        if op == "nop":
            w = 0xe320f000
        elif op == "movi":
            m = self.imm(i) & 0xffff
            w = 0xe3000000 | m >> 12 << 16 | d << 12 | m & 0xfff
        elif op == "movr":
            w = 0xe1a00000 | d << 12 | s
        elif op == "add":
            w = 0xe0800000 | d << 16 | d << 12 | s
        elif op == "push":
            w = 0xe52d0004 | s << 12
        elif op == "pop":
            w = 0xe49d0004 | d << 12
        elif op == "z1":
            w = 0xe15d000d      # cmp sp, sp
        elif op == "z0":
            w = 0xe35d0000      # cmp sp, #0
        elif op in ("lea", "leac"):
            k = self.modimm(a)
            if k is None:
                raise Misfit
            w = cd | (0x028f0000 if off >= 0 else 0x024f0000) | d << 12 | k
        elif op in ("ld", "ldc", "ld8z", "jmem"):
            if a > 4095:
                raise Misfit
            if op == "jmem":
                d = 15
            w = cd | 0x051f0000 | U | (1 << 22 if op == "ld8z" else 0) | d << 12 | a
        elif op in ("ld16z", "lds8", "lds16", "ldd"):
            if a > 255:
                raise Misfit
            kind = {"ld16z": 0x001000b0, "lds8": 0x001000d0, "lds16": 0x001000f0, "ldd": 0x000000d0}[op]
            if op == "ldd" and (d & 1 or s != d + 1):
                raise Misfit
            w = cd | 0x014f0000 | kind | U | d << 12 | (a >> 4) << 8 | a & 15
        elif op == "ldv":
            if a > 1020 or a & 3:
                raise Misfit
            x = self.c.vecs[q["d"]] * 2      # d register, low half of a recorded pair
            w = cd | 0x0d1f0b00 | U | (x >> 4) << 22 | (x & 15) << 12 | a >> 2
        elif op == "ldx":       # movw index, #distance; ldr d, [pc, +-index]
            x = self.c.index
            off = (self.c.addr(y) - (at + 12)) if y else 0
            U = 1 << 23 if off >= 0 else 0
            m = abs(off)
            if m > 0xffff:
                raise Misfit
            return le(0xe3000000 | m >> 12 << 16 | x << 12 | m & 0xfff, 4) + le(0xe71f0000 | U | d << 12 | x, 4)
        elif op == "getpc":
            w = 0xe1a0000f | d << 12
        elif op == "addpc":
            w = 0xe08f0000 | d << 12 | s
        elif op in ("jcc", "jmp", "jout", "call"):
            t = self.c.out if op == "jout" else self.c.rets if op == "call" else self.target(q)
            dd = 0 if t is None else t - base >> 2
            w = cd | (0x0b000000 if op == "call" else 0x0a000000) | dd & 0xffffff
        else:
            raise KeyError(op)
        return le(w, 4)

    @staticmethod
    def modimm(a):
        for rot in range(16):
            x = (a << 2 * rot | a >> (32 - 2 * rot)) & 0xffffffff if rot else a
            if x < 256:
                return rot << 8 | x
        return None

    def pc(self, i, at):
        return at + self.bias

    def reach(self, op, at):
        base = at + 8
        r = {"ld": 4095, "jmem": 4095, "ldc": 4095, "ld8z": 4095, "ld16z": 255, "lds8": 255, "lds16": 255, "ldd": 255,
             "ldv": 1020, "ldx": 60000}.get(op)
        if r is None:       # adr
            return base - (1 << 20), base + (1 << 20), 1
        return base - r, base + r, {"ldd": 4, "ldv": 4, "ld": 4, "jmem": 4, "ldc": 4, "ldx": 4, "ld16z": 2, "lds16": 2}.get(op, 1)

    ret = le(0xe12fff1e, 4)


# ------------------------------------------------------------------ ARM, T32

class T32(Arch):
    name, lane = "t32", "thumbv7neon"
    unit = 2
    word = slot = 4
    nreg, sp = 15, 13
    pool = [*range(0, 13), 14]
    flags = 0xf0000000
    zf = 0x40000000
    bias = 4
    variants = {"ld": 2, "lea": 2, "jcc": 2, "jmp": 2, "nop": 2, "movi": 2, "add": 2, "push": 2, "pop": 2}

    def h(self, *hw):
        return b"".join(le(x, 2) for x in hw)

    def enc(self, q, at, i):
        op, v = q["op"], q.get("v", 0)
        d = self.r(q["d"]) if q["d"] >= 0 and op != "ldv" else 0
        s = self.r(q["s"]) if q["s"] >= 0 else 0
        y = q["y"] if q["y"] > 0 else None
        h = self.h
        low = d < 8

        def lit(at, wide_hi, narrow_hi=None, lim=4095):
            base = (at + 4) & ~3
            off = (self.c.addr(y) - base) if y else 0
            if narrow_hi is not None:
                if off < 0 or off > 1020 or off & 3:
                    raise Misfit
                return h(narrow_hi | d << 8 | off >> 2)
            if abs(off) > lim:
                raise Misfit
            return h(wide_hi | (1 << 7 if off >= 0 else 0), d << 12 | abs(off))

        if op == "ext":
            return self.ext(q, at)
        if op == "pad":
            return h(0xbf00) * self.c.padding(q)
        if op == "jmem":        # ldr.w pc, [pc, #distance]
            d = 15
            return lit(at, 0xf85f & ~0x80)
        if op == "nop":
            return h(0xbf00) if v == 0 else h(0xf3af, 0x8000)
        if op == "movi":
            m = self.imm(i) & 0xffff
            return h(0xf240 | m >> 12 | (m >> 11 & 1) << 10, (m >> 8 & 7) << 12 | d << 8 | m & 255)
        if op == "movr":
            return h(0x4600 | (d >> 3) << 7 | s << 3 | d & 7)
        if op == "add":
            if v and d != 13:
                return h(0xeb00 | d, d << 8 | s)
            return h(0x4400 | (d >> 3) << 7 | s << 3 | d & 7)
        if op == "push":
            if v == 0 and (s < 8 or s == 14):
                return h(0xb400 | (0x100 if s == 14 else 1 << s))
            return h(0xf84d, s << 12 | 0xd04)
        if op == "pop":
            if v == 0 and low:
                return h(0xbc00 | 1 << d)
            return h(0xf85d, d << 12 | 0xb04)
        if op == "z1":
            return h(0x45ed)        # cmp sp, sp
        if op == "z0":
            return h(0xf1bd, 0x0f00)    # cmp.w sp, #0
        if op == "lea":
            if v == 0 and low:
                return lit(at, None, 0xa000)
            return self.adrw(at, d, y)
        if op == "leac":
            return h(0xbf00 | (0 if q["c"] else 1) << 4 | 8) + self.adrw(at + 2, d, y)
        if op == "ld":
            if v == 0 and low:
                return lit(at, None, 0x4800)
            return lit(at, 0xf85f & ~0x80)
        if op == "ldc":
            return h(0xbf00 | (0 if q["c"] else 1) << 4 | 8) + lit(at + 2, 0xf85f & ~0x80)
        if op == "ld8z":
            return lit(at, 0xf81f & ~0x80)
        if op == "ld16z":
            return lit(at, 0xf83f & ~0x80)
        if op == "lds8":
            return lit(at, 0xf91f & ~0x80)
        if op == "lds16":
            return lit(at, 0xf93f & ~0x80)
        if op in ("ldd", "ldv"):
            base = (at + 4) & ~3
            off = (self.c.addr(y) - base) if y else 0
            if abs(off) > 1020 or off & 3:
                raise Misfit
            U = 1 << 7 if off >= 0 else 0
            if op == "ldd":
                return h(0xe95f | U, d << 12 | s << 8 | abs(off) >> 2)
            x = self.c.vecs[q["d"]] * 2
            return h(0xed1f | U | (x >> 4) << 6, (x & 15) << 12 | 0xb00 | abs(off) >> 2)
        if op == "getpc":
            return h(0x4678 | (d >> 3) << 7 | d & 7)
        if op == "addpc":       # mov d, s; add d, pc
            return h(0x4600 | (d >> 3) << 7 | s << 3 | d & 7, 0x4478 | (d >> 3) << 7 | d & 7)
        if op in ("jcc", "jout"):
            t = self.c.out if op == "jout" else self.target(q)
            dd = 0 if t is None else t - (at + 4)
            cc = 0 if q["c"] else 1
            if v == 0 and op == "jcc" and not q.get("far"):
                if not s_fits(dd, 9):
                    raise Misfit
                return h(0xd000 | cc << 8 | dd >> 1 & 255)
            if not s_fits(dd, 21):
                raise Misfit
            k = dd >> 1
            return h(0xf000 | (k >> 19 & 1) << 10 | cc << 6 | k >> 11 & 63,
                     0x8000 | (k >> 17 & 1) << 13 | (k >> 18 & 1) << 11 | k & 0x7ff)
        if op == "jmp":
            t = self.target(q)
            dd = 0 if t is None else t - (at + 4)
            if v == 0:
                if not s_fits(dd, 12):
                    raise Misfit
                return h(0xe000 | dd >> 1 & 0x7ff)
            return self.bw(dd, 0x9000)
        if op == "call":
            t = self.c.rets
            return self.bw(0 if t is None else t - (at + 4), 0xd000)
        if op == "cbz":
            t = self.target(q)
            dd = 0 if t is None else t - (at + 4)
            if s >= 8 or dd < 0 or dd > 126:
                raise Misfit
            return h((0xb900 if q["c"] else 0xb100) | (dd >> 6) << 9 | (dd >> 1 & 31) << 3 | s)
        raise KeyError(op)

    def bw(self, dd, lo):
        k = dd >> 1 & 0xffffff
        sg = k >> 23 & 1
        j1, j2 = 1 ^ (k >> 22 & 1) ^ sg, 1 ^ (k >> 21 & 1) ^ sg
        return self.h(0xf000 | sg << 10 | k >> 11 & 0x3ff, lo | j1 << 13 | j2 << 11 | k & 0x7ff)

    def adrw(self, at, d, y):
        base = (at + 4) & ~3
        off = (self.c.addr(y) - base) if y else 0
        a = abs(off)
        if a > 4095:
            raise Misfit
        hi = 0xf20f if off >= 0 else 0xf2af
        return self.h(hi | (a >> 11) << 10, (a >> 8 & 7) << 12 | d << 8 | a & 255)

    def pc(self, i, at):
        return at + self.bias + (2 if self.c.prog[i]["op"] == "addpc" else 0)

    def reach(self, op, at):
        base = (at + 4) & ~3
        r = 1020 if op in ("ldd", "ldv") else 4095
        return base - r, base + r, {"ld8z": 1, "lds8": 1, "leac": 1, "ld16z": 2, "lds16": 2}.get(op, 4)

    def align(self, q):
        return 1 if q["op"] == "lea" and (q["v"] or self.r(q["d"]) >= 8) else None

    ret = le(0x4770, 2)


ARCHS = {a.name: a for a in (X64, X86, A64, A32, T32)}
