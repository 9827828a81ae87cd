------------------------------ MODULE RelocGen ------------------------------
(***************************************************************************)
(* Prints prologues together with the state the machine of Reloc.tla       *)
(* reaches and whether the prologue may be refused.                        *)
(***************************************************************************)
EXTENDS Reloc, TLC, Json

CONSTANTS UseOps, MinLen, MaxLen, Rand, Exts, Shape

VARIABLES p, z, n

Pick(S) == IF Rand /\ Len(p) >= 0 THEN {RandomElement(S)} ELSE S

\* jumps get their targets as distances while the length is not known
GInit == p = <<>> /\ z \in BOOLEAN /\ n \in MinLen..MaxLen
Choose(op) ==
  \E k \in Pick(IF op = "ext" THEN Exts ELSE {""}) :
  \E d \in Pick(IF op \in HasV THEN Vecs ELSE IF op = "ldd" THEN {1} ELSE IF op \in HasD THEN Regs ELSE {-1}),
     s \in Pick(IF op = "ldd" THEN {2} ELSE IF op = "push" /\ Shape = "last" THEN {0}
               ELSE IF op \in HasS THEN Regs ELSE {-1}),
     y \in Pick(IF op \in HasY \/ IsPc([op |-> op, k |-> k]) THEN Syms ELSE {-1}),
     t \in Pick(IF op \in HasT THEN IF Rand /\ RandomElement(1..4) > 1 THEN (Len(p) + 2)..(n + 1) ELSE 1..(n + 1)
                ELSE {-1}),
     c \in Pick(IF op \in HasC THEN BOOLEAN ELSE {TRUE}) :
       p' = Append(p, [op |-> op, d |-> d, s |-> s, y |-> y, t |-> t, c |-> c, b |-> -1, k |-> k])

\* an operand relative to the instruction pointer, something opaque, and an overwritten register
Probe == CASE Len(p) = 0 /\ n = 3 -> IF Arch = "x64" THEN {"cmpm", "ldv"} ELSE {"movi"}
           [] Len(p) = 0 \/ (Len(p) = 1 /\ n = 3) -> {"ext"}
           [] OTHER -> {"movi"}

\* register 0 is still needed, so that the rest decides whether another one is free
Last == CASE Len(p) = 0 -> IF n = 2 THEN PcData ELSE PcData \cap {"cmpm", "sti", "pushm"}
          [] Len(p) = 1 -> {"push"}
          [] Len(p) = 2 -> IF n = 3 THEN HasD \cap (Base \cup PcData) ELSE {"jcc"}
          [] OTHER -> {"movi", "movr", "ld32"}

\* in random walks every second instruction is an interesting one
Kind == IF Shape = "probe" THEN Probe
        ELSE IF Shape = "last" THEN Last
        ELSE IF Rand /\ Len(p) >= 0
        THEN LET k == RandomElement(1..9) IN
             IF k = 9 /\ "ext" \in UseOps THEN {"ext"}
             ELSE IF k <= 3 THEN UseOps \cap (Base \cup Absolute)
             ELSE IF k = 4 /\ UseOps \cap PcOther # {} THEN UseOps \cap PcOther
             ELSE IF UseOps \cap PcData # {} THEN UseOps \cap PcData ELSE UseOps \cap Ops
        ELSE UseOps \cap Ops

GNext == Len(p) < n /\ \E op \in Pick(Kind) : Choose(op) /\ UNCHANGED <<z, n>>
GSpec == GInit /\ [][GNext]_<<p, z, n>>

Emit ==
  Len(p) = n =>
    LET S == Run(p, z) IN
    S.end /\ ~S.wild => PrintT(ToJson([p |-> p, z |-> z, out |-> S.out, must |-> MustAccept(p),
                            R |-> [r \in 1..Cardinality(Regs) |-> S.R[r - 1]],
                            V |-> [v \in 1..Cardinality(Vecs) |-> S.V[v]],
                            M |-> [y \in 1..Cardinality(Syms) |-> S.M[y]],
                            K |-> S.K, zf |-> S.Z, fl |-> S.fl]))
=============================================================================
