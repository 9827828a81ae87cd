------------------------------- MODULE Reloc -------------------------------
(***************************************************************************)
(* Thunk prologues, what they compute, and what moving them may change.    *)
(*                                                                         *)
(* A thunk template is a compiler-made prologue followed by the lookup of  *)
(* the closure.  Creating a wrapper copies both somewhere else.  This      *)
(* module gives the meaning of a prologue as a symbolic machine: values    *)
(* are terms over the initial registers, constants, addresses of data and  *)
(* code of the original image, and memory contents.  Run(p) is the state   *)
(* in which the lookup is reached when the prologue runs in its original   *)
(* place; a relocated prologue must reach the same state (C07, C08), and   *)
(* the forms in MustAccept may not be refused (C09).                       *)
(*                                                                         *)
(* An instruction is [op, d, s, y, t, c, b, k]: destination, source        *)
(* register, data symbol, target (index of an instruction), condition,     *)
(* base register (-1: the operand is relative to the instruction pointer)  *)
(* and, for op "ext", which row of Ext.tla it is.                          *)
(* Register 0 is the one the lookup overwrites with the closure address.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Ext

CONSTANTS
  Arch,     \* "x64" | "x86" | "a64" | "a32" | "t32"
  Regs,     \* general registers 0..n
  Vecs,     \* vector registers
  Syms      \* data symbols

Wide == Arch \in {"x64", "a64"}
Arm32 == Arch \in {"a32", "t32"}

-----------------------------------------------------------------------------
(* Instruction forms *)

Base == {"nop", "pad", "movi", "movr", "add", "push", "pop", "z0", "z1"}    \* pad: many nops

\* operand relative to the instruction pointer, as data address
PcData ==
  CASE Arch = "x64" -> {"lea", "lea32", "ld", "ld32", "lds32", "ld8z", "ld16z", "lds8", "lds16", "ld8m",
                        "ld16m", "alu", "xchg", "cmov", "st", "st32", "st8", "sti", "rmw", "ldv", "ldq",
                        "stv", "pushm", "popm", "cmpm"}
    [] Arch = "x86" -> {}
    [] Arch = "a64" -> {"lea", "adrp", "ld", "ld32", "lds32", "ldv", "ldq", "pre"}
    [] Arch = "a32" -> {"lea", "ld", "ld8z", "ld16z", "lds8", "lds16", "ldd", "ldc", "leac", "ldv"}
    [] Arch = "t32" -> {"lea", "ld", "ld8z", "ld16z", "lds8", "lds16", "ldd", "ldc", "leac", "ldv"}

\* instructions that observe or change the instruction pointer in other ways
PcOther ==
  CASE Arch = "x64" -> {"jcc", "jmp", "jout", "jrc", "call", "getpc", "jmem"}
    [] Arch = "x86" -> {"getpc", "getpc2", "jcc", "jmp", "jout", "jrc", "call", "jmem"}
    [] Arch = "a64" -> {"jcc", "jmp", "jout", "cbz", "tbz", "call"}
    [] Arch = "a32" -> {"jcc", "jmp", "jout", "call", "getpc", "addpc", "ldx", "jmem"}
    [] Arch = "t32" -> {"jcc", "jmp", "jout", "cbz", "call", "getpc", "addpc", "jmem"}

Absolute == IF Arch = "x86" THEN {"lda", "sta", "alua", "leaa"} ELSE {}

Ops == Base \cup PcData \cup PcOther \cup Absolute \cup {"ext"}

TheRow(q) == CHOOSE e \in RowsOf(Arch) : e.n = q.k
\* has an operand relative to the instruction pointer
IsPc(q) == q.op \in PcData \/ (q.op = "ext" /\ TheRow(q).m # "")

Jumps == {"jcc", "jmp", "cbz", "tbz"}

HasD == {"movi", "movr", "add", "pop", "lea", "lea32", "leac", "leaa", "adrp", "ld", "ld32", "lds32", "ld8z",
         "ld16z", "lds8", "lds16", "ld8m", "ld16m", "alu", "alua", "xchg", "cmov", "ldd", "ldc", "lda", "getpc",
         "getpc2", "addpc", "ldx"}
HasS == {"movr", "add", "push", "st", "st32", "st8", "sta", "rmw", "ldd", "cbz", "tbz", "addpc"}
HasV == {"ldv", "ldq", "stv"}
HasY == PcData \cup {"lda", "sta", "alua", "leaa", "ldx", "jmem"}
HasC == {"jcc", "jout", "ldc", "leac", "cbz", "tbz"}
HasT == Jumps

-----------------------------------------------------------------------------
(* The machine *)

\* where an ip-relative operand of q points, run in place `home` or in a copy
EA(q, S, home) == IF q.b >= 0 THEN S.R[q.b] ELSE IF home THEN <<"a", q.y>> ELSE <<"stray">>

At(a, S) == IF Len(a) = 2 /\ a[1] = "a" THEN S.M[a[2]] ELSE <<"stray">>
Put(a, S, v) ==
  IF Len(a) = 2 /\ a[1] = "a" THEN [S EXCEPT !.M = [S.M EXCEPT ![a[2]] = v]] ELSE [S EXCEPT !.wild = TRUE]

Set(S, r, v) == [S EXCEPT !.R = [S.R EXCEPT ![r] = v]]

\* a row of Ext.tla: opaque results
Opaque(q, S, a, m) ==
  LET e == TheRow(q)
      in == <<[r \in e.rd |-> S.R[r]], IF e.m \in {"r", "w"} THEN m ELSE IF e.m = "a" THEN a ELSE <<>>, S.Z>>
      R1 == [r \in DOMAIN S.R |-> IF r \in e.wr \cup e.may THEN <<"f", q.k, r, in>> ELSE S.R[r]]
      S1 == [S EXCEPT !.R = R1, !.Z = IF e.fl THEN FALSE ELSE S.Z, !.fl = S.fl \/ e.fl,
                      !.X = <<q.k, in, S.X>>]
      S2 == IF e.m = "w" THEN Put(a, S1, <<"f", q.k, -1, in>>) ELSE S1
  IN IF e.sk /\ S.R[4] # <<"r", 4>> THEN [S2 EXCEPT !.wild = TRUE] ELSE S2

Taken(q, S) ==
  CASE q.op \in {"jmp", "jmem"} -> TRUE
    [] q.op \in {"jcc", "jout"} -> S.Z = q.c
    [] q.op \in {"cbz", "tbz"} -> q.c     \* c: the form that jumps on non-zero; registers never hold zero
    [] OTHER -> FALSE

\* i: index of q in the original program
Step(q, i, S, home) ==
  LET a == EA(q, S, home)
      m == At(a, S)
      pc == IF home THEN <<"pc", i>> ELSE <<"stray">>
  IN
  CASE q.op \in {"nop", "pad", "jrc", "call", "pre"} -> S
    [] q.op \in Jumps \cup {"jout", "jmem"} -> S
    [] q.op = "z1" -> [S EXCEPT !.Z = TRUE, !.fl = TRUE]
    [] q.op \in {"z0", "cmpm"} -> [S EXCEPT !.Z = FALSE, !.fl = TRUE]
    [] q.op = "movi" -> Set(S, q.d, <<"i", i>>)
    [] q.op = "movr" -> Set(S, q.d, S.R[q.s])
    [] q.op = "add" -> Set(S, q.d, <<"+", S.R[q.d], S.R[q.s]>>)
    [] q.op = "push" -> [S EXCEPT !.K = Append(S.K, S.R[q.s])]
    [] q.op = "pop" -> IF S.K = <<>> THEN [S EXCEPT !.wild = TRUE]   \* the caller's stack: not modelled
                       ELSE [Set(S, q.d, S.K[Len(S.K)]) EXCEPT !.K = SubSeq(S.K, 1, Len(S.K) - 1)]
    [] q.op = "abs" -> Set(S, q.d, <<"a", q.y>>)            \* only in relocated code
    [] q.op = "abspc" -> Set(S, q.d, <<"pc", q.t>>)         \* only in relocated code
    [] q.op \in {"lea", "leaa"} -> Set(S, q.d, IF q.op = "leaa" THEN <<"a", q.y>> ELSE a)
    [] q.op = "lea32" -> Set(S, q.d, <<"z32", a>>)
    [] q.op = "adrp" -> Set(S, q.d, <<"page", a>>)
    [] q.op = "ld" -> Set(S, q.d, m)
    [] q.op = "lda" -> Set(S, q.d, S.M[q.y])
    [] q.op = "ld32" -> Set(S, q.d, <<"z32", m>>)
    [] q.op = "lds32" -> Set(S, q.d, <<"s32", m>>)
    [] q.op = "ld8z" -> Set(S, q.d, <<"z8", m>>)
    [] q.op = "ld16z" -> Set(S, q.d, <<"z16", m>>)
    [] q.op = "lds8" -> Set(S, q.d, <<"s8", m>>)
    [] q.op = "lds16" -> Set(S, q.d, <<"s16", m>>)
    [] q.op = "ld8m" -> Set(S, q.d, <<"ins8", S.R[q.d], m>>)
    [] q.op = "ld16m" -> Set(S, q.d, <<"ins16", S.R[q.d], m>>)
    [] q.op = "alu" -> [Set(S, q.d, <<"+", S.R[q.d], m>>) EXCEPT !.Z = FALSE, !.fl = TRUE]
    [] q.op = "alua" -> [Set(S, q.d, <<"+", S.R[q.d], S.M[q.y]>>) EXCEPT !.Z = FALSE, !.fl = TRUE]
    [] q.op = "xchg" -> Set(Put(a, S, S.R[q.d]), q.d, m)
    [] q.op \in {"cmov", "ldc"} -> IF S.Z = q.c THEN Set(S, q.d, m) ELSE S
    [] q.op = "leac" -> IF S.Z = q.c THEN Set(S, q.d, a) ELSE S
    [] q.op = "ldd" -> Set(Set(S, q.d, m), q.s, <<"hi", m>>)
    [] q.op = "ldx" -> Set(S, q.d, m)                       \* the index register holds the distance
    [] q.op = "st" -> Put(a, S, S.R[q.s])
    [] q.op = "sta" -> [S EXCEPT !.M = [S.M EXCEPT ![q.y] = <<"ins32", S.M[q.y], S.R[q.s]>>]]
    [] q.op = "st32" -> Put(a, S, <<"ins32", m, S.R[q.s]>>)
    [] q.op = "st8" -> Put(a, S, <<"ins8", m, S.R[q.s]>>)
    [] q.op = "sti" -> Put(a, S, <<"i", i>>)
    [] q.op = "rmw" -> [Put(a, S, <<"+", m, S.R[q.s]>>) EXCEPT !.Z = FALSE, !.fl = TRUE]
    [] q.op = "ldv" -> [S EXCEPT !.V = [S.V EXCEPT ![q.d] = <<"v", m>>]]
    [] q.op = "ldq" -> [S EXCEPT !.V = [S.V EXCEPT ![q.d] = <<"q", m, a>>]]
    [] q.op = "stv" -> Put(a, S, <<"low", S.V[q.d]>>)
    [] q.op = "pushm" -> [S EXCEPT !.K = Append(S.K, m)]
    [] q.op = "popm" -> IF S.K = <<>> THEN [S EXCEPT !.wild = TRUE]
                        ELSE [Put(a, S, S.K[Len(S.K)]) EXCEPT !.K = SubSeq(S.K, 1, Len(S.K) - 1)]
    [] q.op \in {"getpc", "getpc2"} -> Set(S, q.d, pc)
    [] q.op = "addpc" -> Set(S, q.d, <<"+", S.R[q.s], pc>>)
    [] q.op = "ext" -> Opaque(q, S, a, m)

Start(z) ==
  [R |-> [r \in Regs |-> <<"r", r>>], V |-> [v \in Vecs |-> <<"x", v>>],
   M |-> [y \in Syms |-> <<"m", y>>], K |-> <<>>, X |-> <<>>, Z |-> z, fl |-> FALSE,
   out |-> FALSE, wild |-> FALSE, end |-> FALSE]

\* original indices of the instructions of a copy: org[j]
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(p, org, i, S, home, fuel) ==
  IF i = Len(p) + 1 THEN [S EXCEPT !.end = TRUE]
  ELSE IF fuel = 0 \/ i < 1 \/ i > Len(p) THEN S
  ELSE LET q == p[i] IN
       IF q.op \in {"jout", "jmem"} /\ Taken(q, S)
       THEN IF home THEN [S EXCEPT !.out = TRUE, !.end = TRUE,
                                   !.wild = S.wild \/ (q.op = "jmem" /\ S.M[q.y] # <<"m", q.y>>)] ELSE S
       ELSE RunFrom(p, org, IF q.op \in Jumps /\ Taken(q, S) THEN q.t ELSE i + 1,
                    Step(q, org[i], S, home), home, fuel - 1)

Run(p, z) == RunFrom(p, [i \in 1..Len(p) |-> i], 1, Start(z), TRUE, 4 * Len(p) + 4)

\* the lookup overwrites register 0
Seen(S) == [S EXCEPT !.R = [S.R EXCEPT ![0] = <<"closure">>]]

-----------------------------------------------------------------------------
(* Which registers are free where (x64): on every path from i a register   *)
(* is overwritten completely before being read; the lookup overwrites 0.   *)

ReadsOf(q) ==
  (CASE q.op \in {"movr", "push", "st", "st32", "st8", "sta", "rmw", "cbz", "tbz", "addpc"} -> {q.s}
     [] q.op = "add" -> {q.d, q.s}
     [] q.op \in {"alu", "alua", "xchg", "cmov", "ldc", "leac", "ld8m", "ld16m"} -> {q.d}
     [] q.op = "ext" -> TheRow(q).rd
     [] OTHER -> {})
  \cup (IF q.b >= 0 THEN {q.b} ELSE {})

WritesOf(q) ==
  CASE q.op \in {"cmov", "ldc", "leac", "ld8m", "ld16m"} -> {}
    [] q.op = "ldd" -> {q.d, q.s}
    [] q.op = "ext" -> TheRow(q).wr
    [] q.op \in HasD -> {q.d}
    [] OTHER -> {}

RECURSIVE FreeAt(_, _, _, _)
FreeAt(p, i, r, fuel) ==
  IF i = Len(p) + 1 THEN r = 0
  ELSE IF fuel = 0 THEN FALSE
  ELSE LET q == p[i] IN
       IF r \in ReadsOf(q) THEN FALSE
       ELSE IF r \in WritesOf(q) THEN TRUE
       ELSE /\ q.op # "jmp" => FreeAt(p, i + 1, r, fuel - 1)
            /\ q.op \in Jumps => FreeAt(p, q.t, r, fuel - 1)
            /\ q.op \notin {"jout", "jmem"}

-----------------------------------------------------------------------------
(* Prologues that must be relocated rather than refused *)

Supported ==
  CASE Arch = "x64" -> Base \cup PcData \cup {"jcc"}
    [] Arch = "x86" -> Base \cup Absolute \cup {"getpc"}
    [] Arch = "a64" -> Base \cup {"lea", "adrp", "ld", "ld32", "lds32", "jmp"}
    [] OTHER -> Base \cup {"lea", "ld", "ld8z", "ld16z", "lds8", "lds16", "ldd"}

\* instructions an unconditional jump skips need not be understood
RECURSIVE Reach(_, _, _, _)
Reach(p, i, acc, fuel) ==
  IF i > Len(p) \/ fuel = 0 \/ i \in acc THEN acc
  ELSE LET a1 == acc \cup {i} IN
       IF p[i].op = "jmp" THEN Reach(p, p[i].t, a1, fuel - 1)
       ELSE IF p[i].op \in Jumps THEN Reach(p, p[i].t, Reach(p, i + 1, a1, fuel - 1), fuel - 1)
       ELSE Reach(p, i + 1, a1, fuel - 1)

MustAccept(p) ==
  LET live == IF Arch \in {"a64", "a32", "t32"} THEN Reach(p, 1, {}, 4 * Len(p)) ELSE 1..Len(p) IN
  /\ \A i \in live : p[i].op \in Supported \/ (p[i].op = "ext" /\ TheRow(p[i]).ok)
  /\ \A i \in live : p[i].op \in Jumps => p[i].t > i
  /\ Arch = "x64" =>
       \A i \in live : IsPc(p[i]) => \E r \in Regs : FreeAt(p, i, r, 2 * Len(p))

=============================================================================
