-------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* Where arguments and results travel under each calling convention, what  *)
(* a callee has to preserve and what it removes from the stack.            *)
(*                                                                         *)
(* Rules (the conventions of the library map onto them, see Rule):         *)
(*   sysv, win        x86-64                                               *)
(*   cdecl, stdcall, fastcall, thiscall   i686                             *)
(*   a64              AArch64                                              *)
(*   arm, vfp         AAPCS in core registers / with VFP registers         *)
(*                                                                         *)
(* A place is <<kind, n>>: "g" n-th general argument register, "v" n-th    *)
(* vector argument register (single-precision units under vfp), "s" bytes  *)
(* from the start of the stack arguments.  An argument takes one place per *)
(* machine word it is passed in.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rules == {"sysv", "win", "cdecl", "stdcall", "fastcall", "thiscall", "a64", "arm", "vfp"}
Classes == {"i32", "i64", "f32", "f64", "ptr"}
Wide(r) == r \in {"sysv", "win", "a64"}
Word(r) == IF Wide(r) THEN 8 ELSE 4
Size(r, t) == CASE t \in {"i32", "f32"} -> 4 [] t \in {"i64", "f64"} -> 8 [] OTHER -> Word(r)
Floating(t) == t \in {"f32", "f64"}

GRegs(r) == CASE r = "sysv" -> 6 [] r = "win" -> 4 [] r = "fastcall" -> 2 [] r = "thiscall" -> 1
              [] r = "a64" -> 8 [] r \in {"arm", "vfp"} -> 4 [] OTHER -> 0
VRegs(r) == CASE r \in {"sysv", "a64"} -> 8 [] r = "win" -> 4 [] r = "vfp" -> 16 [] OTHER -> 0

(* Convention of a library marker on a target *)
Lanes == {"x86_64", "i686", "aarch64", "armv7", "thumbv7neon"}
Common == {"C", "system", "efiapi"}
Own(lane) == CASE lane = "x86_64" -> {"sysv64", "win64"}
               [] lane = "i686" -> {"fastcall", "stdcall", "cdecl", "thiscall"}
               [] lane = "aarch64" -> {}
               [] OTHER -> {"aapcs"}
Unwinding(cc) == cc \notin {"Rust", "efiapi"}
Unwind == [C |-> "C-unwind", system |-> "system-unwind", sysv64 |-> "sysv64-unwind", win64 |-> "win64-unwind",
           fastcall |-> "fastcall-unwind", stdcall |-> "stdcall-unwind", cdecl |-> "cdecl-unwind",
           thiscall |-> "thiscall-unwind", aapcs |-> "aapcs-unwind"]
Plain(lane) == Common \cup Own(lane)
Conventions(lane) == Plain(lane) \cup {Unwind[c] : c \in Plain(lane) \ {"efiapi"}}
Base(cc) == IF cc \in DOMAIN Unwind \cup {"efiapi", "Rust"} THEN cc ELSE CHOOSE c \in DOMAIN Unwind : Unwind[c] = cc
Rule(lane, cc) ==
  LET b == Base(cc) IN
  CASE lane = "x86_64" -> IF b \in {"win64", "efiapi"} THEN "win" ELSE "sysv"
    [] lane = "i686" -> IF b \in {"fastcall", "stdcall", "thiscall"} THEN b ELSE "cdecl"
    [] lane = "aarch64" -> "a64"
    [] OTHER -> IF b \in {"aapcs", "efiapi"} THEN "arm" ELSE "vfp"

Up(n, a) == ((n + a - 1) \div a) * a

(* Allocation state: g next general register, v vector registers taken,     *)
(* s next stack byte, i arguments placed, f VFP registers exhausted         *)
Start == [g |-> 0, v |-> {}, s |-> 0, i |-> 0, f |-> FALSE]

OnStack(r, S, t) ==
  LET a == IF r \in {"arm", "vfp"} THEN Size(r, t) ELSE Word(r)
      o == Up(S.s, a)
      n == Up(Size(r, t), Word(r))
  IN [at |-> [k \in 1..(n \div Word(r)) |-> <<"s", o + (k - 1) * Word(r)>>],
      st |-> [S EXCEPT !.s = o + n, !.i = @ + 1]]

InG(S, n) == [at |-> [k \in 1..n |-> <<"g", S.g + k - 1>>], st |-> [S EXCEPT !.g = @ + n, !.i = @ + 1]]

ArmCore(r, S, t) ==
  IF Size(r, t) = 4
  THEN IF S.g < 4 THEN InG(S, 1) ELSE OnStack(r, S, t)
  ELSE LET e == Up(S.g, 2) IN
       IF e < 4 THEN InG([S EXCEPT !.g = e], 2) ELSE OnStack(r, [S EXCEPT !.g = 4], t)

\* lowest free single register, or lowest free even pair
FreeV(S, n) == {k \in 0..(16 - n) : k % n = 0 /\ \A j \in k..(k + n - 1) : j \notin S.v}
Min(X) == CHOOSE x \in X : \A y \in X : x <= y

Place(r, S, t) ==
  CASE r \in {"sysv", "a64"} /\ ~Floating(t) -> IF S.g < GRegs(r) THEN InG(S, 1) ELSE OnStack(r, S, t)
    [] r \in {"sysv", "a64"} /\ Floating(t) ->
         LET k == Cardinality(S.v) IN
         IF k < 8 THEN [at |-> <<<<"v", k>>>>, st |-> [S EXCEPT !.v = @ \cup {k}, !.i = @ + 1]] ELSE OnStack(r, S, t)
    [] r = "win" -> \* positional, with stack space set aside for the first four
         [at |-> <<IF S.i >= 4 THEN <<"s", 8 * S.i>> ELSE <<IF Floating(t) THEN "v" ELSE "g", S.i>> >>,
          st |-> [S EXCEPT !.i = @ + 1, !.s = IF @ < 32 THEN 32 ELSE 8 * (S.i + 1)]]
    [] r \in {"cdecl", "stdcall"} -> OnStack(r, S, t)
    [] r = "fastcall" -> \* an i64 uses up both registers but travels on the stack
         IF Floating(t) THEN OnStack(r, S, t)
         ELSE IF Size(r, t) = 4 /\ S.g < 2 THEN InG(S, 1)
         ELSE OnStack(r, [S EXCEPT !.g = 2], t)
    [] r = "thiscall" -> \* the first integer word
         IF Floating(t) \/ S.g = 1 THEN OnStack(r, S, t)
         ELSE IF Size(r, t) = 4 THEN InG(S, 1)
         ELSE [at |-> <<<<"g", 0>>, <<"s", S.s>>>>, st |-> [S EXCEPT !.g = 1, !.s = @ + 4, !.i = @ + 1]]
    [] r = "arm" -> ArmCore(r, S, t)
    [] r = "vfp" /\ ~Floating(t) -> ArmCore(r, S, t)
    [] r = "vfp" /\ Floating(t) ->
         LET n == Size(r, t) \div 4
             F == FreeV(S, n)
         IN IF ~S.f /\ F # {}
            THEN LET k == Min(F) IN
                 [at |-> [j \in 1..n |-> <<"v", k + j - 1>>],
                  st |-> [S EXCEPT !.v = @ \cup (k..(k + n - 1)), !.i = @ + 1]]
            ELSE OnStack(r, [S EXCEPT !.f = TRUE], t)

RECURSIVE Layout(_, _, _)
\* places of every argument of a signature, and the final allocation state
Layout(r, S, ts) ==
  IF ts = <<>> THEN [at |-> <<>>, st |-> S]
  ELSE LET p == Place(r, S, Head(ts))
           q == Layout(r, p.st, Tail(ts))
       IN [at |-> <<p.at>> \o q.at, st |-> q.st]

(* Where the result is: "rg" n-th result register, "rv" vector, "st" x87 *)
Result(r, t) ==
  CASE t = "()" -> <<>>
    [] Floating(t) /\ r \in {"sysv", "win", "a64"} -> <<<<"rv", 0>>>>
    [] Floating(t) /\ r = "vfp" -> [j \in 1..(Size(r, t) \div 4) |-> <<"rv", j - 1>>]
    [] Floating(t) /\ r # "arm" -> <<<<"st", 0>>>>
    [] OTHER -> [j \in 1..(Up(Size(r, t), Word(r)) \div Word(r)) |-> <<"rg", j - 1>>]

\* bytes of arguments the callee removes
Pops(r, S) == IF r \in {"stdcall", "fastcall", "thiscall"} THEN S.s ELSE 0

(* Registers a callee leaves as they were; v: low 64 bits, q: all of it *)
Preserved(r) ==
  CASE r = "sysv" -> {"rbx", "rbp", "r12", "r13", "r14", "r15"}
    [] r = "win" -> {"rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15", "q6", "q7", "q8", "q9", "q10", "q11",
                     "q12", "q13", "q14", "q15"}
    [] r = "a64" -> {"x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "v8", "v9", "v10",
                     "v11", "v12", "v13", "v14", "v15"}
    [] r \in {"arm", "vfp"} -> {"r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "v8", "v9", "v10", "v11", "v12",
                                "v13", "v14", "v15"}
    [] OTHER -> {"ebx", "esi", "edi", "ebp"}

\* the stack pointer a function called by the closure sees, after the return address, is a multiple of
Alignment(r) == IF r \in {"arm", "vfp"} THEN 8 ELSE 16
=============================================================================
