------------------------------ MODULE RelocMC ------------------------------
(***************************************************************************)
(* The relocation scheme of the library, stated on the abstract machine,   *)
(* and checked on every prologue up to a length: whatever is accepted runs *)
(* the same elsewhere, and the promised forms are accepted.                *)
(*                                                                         *)
(* Fault switches one step of the scheme off; TLC must then find a         *)
(* prologue that breaks (the check runs these too).                        *)
(***************************************************************************)
EXTENDS Reloc

CONSTANTS UseOps, MaxLen, Fault, Exts

VARIABLES p, z

Instr(op) ==
  {[op |-> op, d |-> d, s |-> s, y |-> y, t |-> t, c |-> c, b |-> -1, k |-> k] :
     k \in IF op = "ext" THEN Exts ELSE {""},
     d \in IF op \in HasV THEN Vecs ELSE IF op \in HasD THEN Regs ELSE {-1},
     s \in IF op \in HasS THEN Regs ELSE {-1},
     y \in IF op \in HasY THEN Syms ELSE IF op = "ext" THEN Syms \cup {-1} ELSE {-1},
     t \in IF op \in HasT THEN 1..(MaxLen + 1) ELSE {-1},
     c \in IF op \in HasC THEN BOOLEAN ELSE {TRUE}}

Instrs == {q \in UNION {Instr(op) : op \in UseOps \cap Ops} :
             (q.op = "ldd" => q.d # q.s) /\ (q.op = "ext" => (q.y < 0 <=> TheRow(q).m = ""))}

Init == p = <<>> /\ z \in BOOLEAN
Next == Len(p) < MaxLen /\ \E q \in Instrs : p' = Append(p, q) /\ UNCHANGED z
Spec == Init /\ [][Next]_<<p, z>>

Closed == \A i \in 1..Len(p) : p[i].op \in Jumps => p[i].t <= Len(p) + 1

-----------------------------------------------------------------------------
Refused == <<>>

IpRel(q) == IsPc(q) /\ q.b < 0

\* one instruction: the sequence it becomes, or Refused
X64(i) ==
  LET q == p[i]
      \* the scheme looks for registers along all paths (fault "live": any register the
      \* instruction itself does not read; fault "straight": ignoring jumps; fault "opaque":
      \* only the reads of instructions that always overwrite something count)
      Nojump == [k \in 1..Len(p) |-> IF p[k].op \in Jumps THEN [p[k] EXCEPT !.op = "nop"] ELSE p[k]]
      Plain == [k \in 1..Len(p) |-> IF p[k].op = "ext" /\ TheRow(p[k]).wr = {} THEN [p[k] EXCEPT !.op = "nop"] ELSE p[k]]
      free == CASE Fault = "live" -> {r \in Regs : r \notin ReadsOf(q)}
                [] Fault = "straight" -> {r \in Regs : FreeAt(Nojump, i, r, 2 * Len(p))}
                [] Fault = "opaque" -> {r \in Regs : FreeAt(Plain, i, r, 2 * Len(p))}
                [] OTHER -> {r \in Regs : FreeAt(p, i, r, 2 * Len(p))}
  IN CASE q.op \in {"jmp", "jout", "jrc", "call", "getpc", "jmem"} -> Refused
       [] q.op = "ext" /\ ~TheRow(q).ok -> Refused
       [] IpRel(q) /\ Fault = "verbatim" -> <<q>>
       [] IpRel(q) /\ free = {} -> Refused
       [] IpRel(q) -> LET r == CHOOSE r \in free : \A x \in free : r >= x IN
                      <<[q EXCEPT !.op = "abs", !.d = r], [q EXCEPT !.b = r]>>
       [] OTHER -> <<q>>

X86(i) ==
  LET q == p[i] IN
  CASE q.op = "getpc" -> IF Fault = "verbatim" THEN <<q>>
                         ELSE <<[q EXCEPT !.op = "abspc", !.t = IF Fault = "pc" THEN i + 1 ELSE i]>>
    [] q.op \in PcOther -> Refused
    [] q.op = "ext" /\ ~TheRow(q).ok -> Refused
    [] OTHER -> <<q>>

Arm(i) ==
  LET q == p[i] IN
  CASE q.op = "adrp" -> <<[q EXCEPT !.op = "abs"], [q EXCEPT !.b = q.d]>>
    [] q.op \in {"ldv", "ldq", "pre"} -> IF Fault = "simd" THEN <<q>> ELSE Refused
    [] q.op \in {"ldc", "leac"} -> IF Fault = "cond" THEN <<[q EXCEPT !.op = "abs"], [q EXCEPT !.b = q.d]>> ELSE Refused
    [] IpRel(q) -> IF Fault = "verbatim" THEN <<q>> ELSE <<[q EXCEPT !.op = "abs"], [q EXCEPT !.b = q.d]>>
    [] q.op = "jmp" -> IF q.t > i THEN <<q>> ELSE Refused
    [] q.op \in PcOther -> Refused
    [] q.op = "ext" /\ ~TheRow(q).ok -> Refused
    [] OTHER -> <<q>>

One(i) == CASE Arch = "x64" -> X64(i) [] Arch = "x86" -> X86(i) [] OTHER -> Arm(i)

\* instructions the scheme looks at
Live == IF Arch \in {"a64", "a32", "t32"} THEN Reach(p, 1, {}, 4 * Len(p)) ELSE 1..Len(p)
New == [i \in 1..Len(p) |-> IF i \in Live THEN One(i) ELSE <<p[i]>>]
Accepted == \A i \in Live : New[i] # Refused

\* first index of the copy of instruction i
RECURSIVE Place(_)
Place(i) == IF i = 1 THEN 1 ELSE Place(i - 1) + Len(New[i - 1])

Moved(i, q) ==
  IF q.op \in Jumps
  THEN [q EXCEPT !.t = IF Fault = "disp" THEN Place(i) + (q.t - i) ELSE Place(q.t)]
  ELSE q

RECURSIVE Copy(_)
Copy(i) == IF i > Len(p) THEN <<>> ELSE [j \in 1..Len(New[i]) |-> Moved(i, New[i][j])] \o Copy(i + 1)
RECURSIVE Origin(_)
Origin(i) == IF i > Len(p) THEN <<>> ELSE [j \in 1..Len(New[i]) |-> i] \o Origin(i + 1)

Same ==
  Closed /\ Accepted =>
    LET a == Run(p, z) IN
    a.end /\ ~a.wild => Seen(RunFrom(Copy(1), Origin(1), 1, Start(z), FALSE, 8 * Len(p) + 8)) = Seen(a)

Promised == Closed /\ MustAccept(p) => Accepted

=============================================================================
