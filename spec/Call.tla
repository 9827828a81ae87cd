-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* One call through a bare function.                                       *)
(*                                                                         *)
(* The caller puts the arguments where the convention wants them and jumps *)
(* to the thunk.  The thunk is a copy of the start of a function compiled  *)
(* for that convention: its prologue may save preserved registers and      *)
(* move the stack pointer, then the lookup sequence writes the closure's   *)
(* address (and, on some targets, the address to continue at) to registers *)
(* the compiler picked, then control goes back into the compiled function, *)
(* which runs the closure with the arguments and returns its result.       *)
(*                                                                         *)
(* Register contents are symbols.  Fault names a deviation.                *)
(***************************************************************************)
EXTENDS Abi

CONSTANTS UseRules, UseTypes, MaxArgs, Fault

VARIABLES step,     \* what happens next
          r, sig, ret,
          R,        \* general registers: argument registers, scratch registers, preserved ones
          K,        \* argument words on the stack and in vector registers
          sp, saved, frame,
          seen,     \* arguments the closure got, once per run
          back      \* the caller's view of the result

vars == <<step, r, sig, ret, R, K, sp, saved, frame, seen, back>>

Scratch == {<<"c", 1>>, <<"c", 2>>}
Keep == {<<"k", 1>>, <<"k", 2>>}
Gs == {<<"g", n>> : n \in 0..7}
Words(x, i) == Layout(x, Start, sig).at[i]
Used == UNION {{Layout(r, Start, sig).at[i][j] : j \in 1..Len(Layout(r, Start, sig).at[i])} : i \in 1..Len(sig)}
Passed(i, j) == <<"arg", i, j>>

Init ==
  /\ step = "sign"
  /\ r \in UseRules
  /\ sig = <<>>
  /\ ret = "()"
  /\ R = [x \in Gs \cup Scratch \cup Keep |-> <<"caller", x>>]
  /\ K = [x \in {} |-> 0]
  /\ sp = 0 /\ saved = {} /\ frame = 0 /\ seen = <<>> /\ back = <<>>

Sign ==
  /\ step = "sign"
  /\ \/ Len(sig) < MaxArgs /\ \E t \in UseTypes : sig' = Append(sig, t) /\ UNCHANGED <<step, ret>>
     \/ \E t \in UseTypes \cup {"()"} : ret' = t /\ step' = "pass" /\ UNCHANGED sig
  /\ UNCHANGED <<r, R, K, sp, saved, frame, seen, back>>

\* the caller fills in the places
Pass ==
  /\ step = "pass"
  /\ step' = "thunk"
  /\ LET at == Layout(r, Start, sig).at
         Here(x) == {p \in (1..Len(sig)) \X (1..2) : p[2] <= Len(at[p[1]]) /\ at[p[1]][p[2]] = x}
         Val(x) == LET p == CHOOSE q \in Here(x) : TRUE IN Passed(p[1], p[2])
     IN /\ R' = [x \in DOMAIN R |-> IF Here(x) # {} THEN Val(x) ELSE R[x]]
        /\ K' = [x \in {y \in Used : y[1] # "g"} |-> Val(x)]
  /\ sp' = 100 \* return address pushed or in the link register
  /\ UNCHANGED <<r, sig, ret, saved, frame, seen, back>>

\* copied prologue
Prologue ==
  /\ step = "thunk"
  /\ step' = "lookup"
  /\ \E S \in SUBSET Keep, f \in {0, 16} :
       /\ saved' = {<<x, R[x]>> : x \in S}
       /\ frame' = f + Cardinality(S) * Word(r)
  /\ sp' = sp - frame'
  /\ UNCHANGED <<r, sig, ret, R, K, seen, back>>

\* registers the lookup sequence may write: nothing the closure still needs, nothing the caller wants back
MayUse ==
  {x \in DOMAIN R :
     /\ Fault = "argreg" \/ x \notin Used
     /\ Fault = "keepreg" \/ (x \in Keep => \E s \in saved : s[1] = x)}
Lookup ==
  /\ step = "lookup"
  /\ step' = "body"
  /\ \E x, y \in MayUse : x # y /\ R' = [R EXCEPT ![x] = <<"closure">>, ![y] = <<"continue">>]
  /\ UNCHANGED <<r, sig, ret, K, sp, saved, frame, seen, back>>

Got(i) ==
  LET k == IF Fault = "shift" THEN (i % Len(sig)) + 1 ELSE i
      at == Layout(r, Start, sig).at[k]
  IN [j \in 1..Len(at) |-> IF at[j][1] = "g" THEN R[at[j]] ELSE K[at[j]]]
Body ==
  /\ step = "body"
  /\ seen' = Append(seen, [i \in 1..Len(sig) |-> Got(i)])
  /\ step' = IF Fault = "twice" /\ Len(seen) = 0 THEN "body" ELSE "leave"
  \* the closure may use every register; what was saved can be used too
  /\ R' = IF step' = "body" THEN R
          ELSE [x \in DOMAIN R |-> IF x \in Keep /\ ~\E s \in saved : s[1] = x THEN R[x] ELSE <<"junk">>]
  /\ UNCHANGED <<r, sig, ret, K, sp, saved, frame, back>>

Leave ==
  /\ step = "leave"
  /\ step' = "done"
  /\ back' = IF Fault = "half" /\ Len(Result(r, ret)) = 2 THEN <<<<"res", 1>>, <<"junk">>>>
             ELSE [j \in 1..Len(Result(r, ret)) |-> <<"res", j>>]
  /\ R' = [x \in DOMAIN R |-> IF \E s \in saved : s[1] = x THEN (CHOOSE s \in saved : s[1] = x)[2] ELSE R[x]]
  /\ sp' = sp + frame + (IF Fault = "pops" THEN 0 ELSE Pops(r, Layout(r, Start, sig).st))
  /\ UNCHANGED <<r, sig, ret, K, saved, frame, seen>>

Next == Sign \/ Pass \/ Prologue \/ Lookup \/ Body \/ Leave
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == step = "done"
Want == [i \in 1..Len(sig) |-> [j \in 1..Len(Words(r, i)) |-> Passed(i, j)]]

\* C01: the closure runs once, with the caller's arguments in their positions
Delivered == Done => seen = <<Want>>
\* C01: the caller gets all of the result
Returned == Done => back = [j \in 1..Len(Result(r, ret)) |-> <<"res", j>>]
\* C15
KeepsRegisters == Done => \A x \in Keep : R[x] = <<"caller", x>>
KeepsStack == Done => sp = 100 + Pops(r, Layout(r, Start, sig).st)
\* no two words of the arguments share a place, and places exist
Separate ==
  step = "pass" =>
    LET at == Layout(r, Start, sig).at IN
    /\ \A i, k \in 1..Len(sig) : \A j \in 1..Len(at[i]), l \in 1..Len(at[k]) :
         at[i][j] = at[k][l] => i = k /\ j = l
    /\ \A i \in 1..Len(sig) : \A j \in 1..Len(at[i]) :
         /\ at[i][j][1] = "g" => at[i][j][2] < GRegs(r)
         /\ at[i][j][1] = "v" => at[i][j][2] < VRegs(r)
         /\ at[i][j][1] = "s" => at[i][j][2] % Word(r) = 0 /\ at[i][j][2] < Layout(r, Start, sig).st.s
    /\ \A i \in 1..Len(sig) : r \in {"arm", "vfp"} /\ Size(r, sig[i]) = 8 =>
         /\ Len(at[i]) = 2
         /\ at[i][1][1] = at[i][2][1]
         /\ at[i][1][1] \in {"g", "v"} => at[i][1][2] % 2 = 0
         /\ at[i][1][1] = "s" => at[i][1][2] % 8 = 0
=============================================================================
