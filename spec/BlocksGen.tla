----------------------------- MODULE BlocksGen -----------------------------
(***************************************************************************)
(* Random allocation histories on the built-in allocators.                 *)
(*                                                                         *)
(* Blocks of more than one cell of the underlying allocator are only       *)
(* released in the opposite order of taking (Stack): other histories run   *)
(* into the known finding listed in FINDINGS.txt.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS
  Ts,
  Slots,      \* blocks of a thread are kept in slots
  Sizes,
  Len0,
  Owners,     \* "global", "thread"
  Apart0,     \* threads only release their own blocks
  Stack       \* last taken, first released (in each allocator)

VARIABLES prog, held      \* held: live blocks in the order they were taken: [k: <<thread, slot>>, own]
gvars == <<prog, held>>

\* one element at random; depends on the state, so that TLC picks anew in every step
One(S) == IF Len(prog) >= 0 THEN {RandomElement(S)} ELSE {}

Init == prog = <<>> /\ held = <<>>

Live == 1..Len(held)
May(t, i) == IF held[i].own = "thread" THEN held[i].k[1] = t ELSE Apart0 => held[i].k[1] = t
SameAllocator(i, j) == held[i].own = held[j].own /\ (held[i].own = "thread" => held[i].k[1] = held[j].k[1])
Last(i) == \A j \in Live : SameAllocator(i, j) => j <= i
Without(i) == SubSeq(held, 1, i - 1) \o SubSeq(held, i + 1, Len(held))
Cmd(op, t, own, k, size) == [op |-> op, t |-> t, own |-> own, of |-> k[1], slot |-> k[2], size |-> size]

Next ==
  /\ Len(prog) < Len0
  /\ \E t \in One(Ts), own \in One(Owners), what \in One(1..9), size \in One(Sizes) :
     LET free == {k \in {t} \X Slots : \A i \in Live : held[i].k # k}
         mine == {i \in Live : May(t, i) /\ (Stack => Last(i))}
         some == {i \in Live : Apart0 => held[i].k[1] = t}
     IN CASE what \in 1..3 /\ free # {} ->
               \E k \in One(free) :
               /\ prog' = Append(prog, Cmd("take", t, own, k, size))
               /\ held' = Append(held, [k |-> k, own |-> own])
          [] what \in 4..6 /\ mine # {} ->
               \E i \in One(mine) :
               /\ prog' = Append(prog, Cmd("give", t, held[i].own, held[i].k, 0))
               /\ held' = Without(i)
          [] what \in 7..8 /\ some # {} ->
               \E i \in One(some) :
               /\ prog' = Append(prog, Cmd(IF what = 7 THEN "fill" ELSE "look", t, held[i].own, held[i].k, Len(prog)))
               /\ UNCHANGED held
          [] OTHER ->
               /\ prog' = Append(prog, Cmd("churn", t, own, <<t, 0>>, size))
               /\ UNCHANGED held
Spec == Init /\ [][Next]_gvars

\* what is left is released at the end, in reverse order
Rest == [i \in Live |-> LET h == held[Len(held) + 1 - i] IN Cmd("give", h.k[1], h.own, h.k, 0)]
Emit == Len(prog) = Len0 => PrintT(ToJson(prog \o Rest))
=============================================================================
