------------------------------ MODULE CallGen ------------------------------
(***************************************************************************)
(* Prints signatures to try, with everything a caller can choose, and, for *)
(* scalar signatures, the places the convention assigns.                   *)
(***************************************************************************)
EXTENDS Abi, TLC, Json

CONSTANTS Lane, UseCC, Arities, Rounds, Types, Returns, Kinds, Caps, Paths, Stores, Forms, Bodies, Places

VARIABLES cc, n, round, pal, sig
gvars == <<cc, n, round, pal, sig>>

All == UseCC \cap (Conventions(Lane) \cup {"Rust", "..."})
\* a third of the signatures use one or two types only
Palette(k) ==
  CASE k % 3 = 0 -> {RandomElement(Types)}
    [] k % 3 = 1 -> {RandomElement(Types), RandomElement(Types), RandomElement(Types)}
    [] OTHER -> Types

GInit ==
  /\ cc \in All
  /\ n \in Arities
  /\ round \in 1..Rounds
  /\ pal = Palette(n + round)
  /\ sig = <<>>
GNext ==
  /\ Len(sig) < n
  /\ sig' = Append(sig, RandomElement(pal))
  /\ UNCHANGED <<cc, n, round, pal>>
GSpec == GInit /\ [][GNext]_gvars

Some(S) == IF Len(sig) >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Emit ==
  Len(sig) = n =>
    LET ret == Some(Returns)
        L == IF Places THEN Layout(Rule(Lane, cc), Start, sig) ELSE [at |-> <<>>, st |-> Start]
    IN PrintT(ToJson([cc |-> cc, n |-> n, sig |-> sig, ret |-> ret, kind |-> Some(Kinds), cap |-> Some(Caps),
                      path |-> Some(Paths), store |-> Some(Stores), form |-> Some(Forms), body |-> Some(Bodies),
                      fix |-> Some(0..(IF n > 12 THEN 12 ELSE n)),
                      at |-> L.at, area |-> L.st.s,
                      res |-> IF Places THEN Result(Rule(Lane, cc), ret) ELSE <<>>]))
=============================================================================
