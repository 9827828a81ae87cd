------------------------------ MODULE Declare ------------------------------
(***************************************************************************)
(* Declarations given to the higher-ranked macro: what is on the right of  *)
(* the equals sign, how many lifetimes it binds and whether one is left    *)
(* unnamed, and which of them are accepted.                                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS MaxLives, MaxArgs

Forms == {"fn", "ref", "tuple", "path", "dyn", "array", "ptr"}
Gaps == {"none", "reference", "path", "nested", "result", "mutable"}   \* where a lifetime is left out
VARIABLES form, lives, gap, args, seen
dvars == <<form, lives, gap, args, seen>>

Init ==
  /\ form \in Forms /\ lives \in 0..MaxLives /\ gap \in Gaps /\ args \in 0..MaxArgs /\ seen = "crate"
  /\ form # "fn" => gap = "none" /\ args = 1 /\ lives <= 1
  /\ (gap \in {"reference", "path", "nested", "mutable"} => args >= 1)
  /\ (gap = "result" => args >= 1 /\ lives = 0)
  /\ (lives > 0 => args >= 1)
\* the declared type is then named from the same module, the crate or outside its visibility
Next == seen = "crate" /\ seen' \in {"same", "outside"} /\ UNCHANGED <<form, lives, gap, args>>
Spec == Init /\ [][Next]_dvars

Accepted == form = "fn" /\ lives <= 3 /\ gap = "none"
Usable == Accepted /\ seen # "outside"

\* every rejected declaration has a reason the library documents
Reasons == ~Accepted => form # "fn" \/ lives > 3 \/ gap # "none"
Sane == Usable => Accepted
Emit == PrintT(ToJson([form |-> form, lives |-> lives, gap |-> gap, args |-> args, seen |-> seen,
                       accepted |-> Accepted, usable |-> Usable]))
=============================================================================
