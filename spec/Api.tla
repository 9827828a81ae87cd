-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The command level: which public operations a program may perform, in    *)
(* which order, without the steps the library takes in between.  BareFnMC  *)
(* is checked to refine this module, and BareFnGen walks it to produce the *)
(* programs that are replayed into the library.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W, T

VARIABLES
  st,    \* wrapper -> none | live | leaked | dropping | gone
  kind,  \* wrapper -> once | mut | fn
  used,  \* wrapper -> has been called
  cs     \* thread -> stack of <<"call" | "drop", wrapper>>

avars == <<st, kind, used, cs>>

AInit ==
  /\ st = [w \in W |-> "none"]
  /\ kind = [w \in W |-> ""]
  /\ used = [w \in W |-> FALSE]
  /\ cs = [t \in T |-> <<>>]

Active(w) == \E t \in T : \E i \in 1..Len(cs[t]) : cs[t][i] = <<"call", w>>
ATop(t) == IF cs[t] = <<>> THEN <<"", 0>> ELSE cs[t][Len(cs[t])]
APush(t, f) == cs' = [cs EXCEPT ![t] = Append(@, f)]
APop(t) == cs' = [cs EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

ACtor(t, w, k, ok) ==
  /\ st[w] = "none"
  /\ st' = [st EXCEPT ![w] = IF ok THEN "live" ELSE "gone"]
  /\ kind' = [kind EXCEPT ![w] = k]
  /\ UNCHANGED <<used, cs>>

ALeak(t, w) ==
  /\ st[w] = "live"
  /\ st' = [st EXCEPT ![w] = "leaked"]
  /\ UNCHANGED <<kind, used, cs>>

ACallable(w) ==
  /\ \/ st[w] = "live" /\ kind[w] # "once"
     \/ st[w] = "leaked"
  /\ kind[w] = "once" => ~used[w]
  /\ kind[w] # "fn" => ~Active(w)

ACall(t, w) ==
  /\ ACallable(w)
  /\ used' = [used EXCEPT ![w] = TRUE]
  /\ APush(t, <<"call", w>>)
  /\ UNCHANGED <<st, kind>>

AReturn(t) ==
  /\ ATop(t)[1] = "call"
  /\ APop(t)
  /\ UNCHANGED <<st, kind, used>>

ADrop(t, w) ==
  /\ st[w] = "live" /\ ~Active(w)
  /\ st' = [st EXCEPT ![w] = "dropping"]
  /\ APush(t, <<"drop", w>>)
  /\ UNCHANGED <<kind, used>>

ADropped(t) ==
  /\ ATop(t)[1] = "drop"
  /\ st' = [st EXCEPT ![ATop(t)[2]] = "gone"]
  /\ APop(t)
  /\ UNCHANGED <<kind, used>>

ANext ==
  \E t \in T :
    \/ \E w \in W, k \in {"once", "mut", "fn"}, ok \in BOOLEAN : ACtor(t, w, k, ok)
    \/ \E w \in W : ALeak(t, w) \/ ACall(t, w) \/ ADrop(t, w)
    \/ AReturn(t)
    \/ ADropped(t)

ASpec == AInit /\ [][ANext]_avars

\* a wrapper that is being dropped or gone is never running
NoUseAfterDrop == \A w \in W : st[w] \in {"dropping", "gone", "none"} => ~Active(w)
=============================================================================
