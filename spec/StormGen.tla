------------------------------ MODULE StormGen ------------------------------
(***************************************************************************)
(* Random programs for Storm: commands of several threads, each of which   *)
(* runs its own in order.  A wrapper that was passed on is picked up later *)
(* in the program than it was passed, so the threads cannot block each     *)
(* other.  Thread 0 cleans up after the others have ended.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS
  Ts,
  Len0,
  Shares,     \* are wrappers called by several threads at once?
  Hows,       \* ways of construction
  Rounds      \* how often things are repeated

VARIABLES prog, has      \* has: wrapper -> thread, Way + n for the n-th hand-over, -1 for shared
gvars == <<prog, has>>

One(S) == IF Len(prog) >= 0 THEN {RandomElement(S)} ELSE {}
Init == prog = <<>> /\ has = <<>>

W == 1..Len(has)
Of(k) == {w \in W : has[w] = k}
Way == 1000
Sent == {w \in W : has[w] >= Way}
Cmd(op, t, w, n) == [op |-> op, t |-> t, w |-> w, n |-> n]
Do(c) == prog' = Append(prog, c)

Next ==
  /\ Len(prog) < Len0
  /\ \E t \in One(Ts), what \in One(1..20), n \in One(Rounds), h \in One(Hows) :
     LET mine == Of(t)
         usable == mine \cup Of(-1)
     IN CASE what \in 1..5 -> Do(Cmd(IF what = 1 THEN "deep" ELSE "make", t, Len(has) + 1, h)) /\ has' = Append(has, t)
          [] what \in 6..10 /\ usable # {} -> \E w \in One(usable) : Do(Cmd("call", t, w, n)) /\ UNCHANGED has
          [] what \in 11..13 /\ mine # {} -> \E w \in One(mine) : Do(Cmd("drop", t, w, 0)) /\ has' = [has EXCEPT ![w] = -2]
          [] what \in 14..15 /\ mine # {} -> \E w \in One(mine) : Do(Cmd("pass", t, w, Way + Len(prog))) /\ has' = [has EXCEPT ![w] = Way + Len(prog)]
          [] what \in 16..17 /\ Sent # {} -> \E w \in One(Sent) : Do(Cmd("take", t, w, has[w])) /\ has' = [has EXCEPT ![w] = t]
          [] what = 18 /\ Shares /\ mine # {} -> \E w \in One(mine) : Do(Cmd("share", t, w, w)) /\ has' = [has EXCEPT ![w] = -1]
          [] OTHER -> Do(Cmd("churn", t, 0, n)) /\ UNCHANGED has
Spec == Init /\ [][Next]_gvars

\* what is left
RECURSIVE Rest(_)
Rest(w) ==
  IF w = 0 THEN <<>>
  ELSE Rest(w - 1) \o (CASE has[w] = -2 -> <<>>
                         [] has[w] >= Way \/ has[w] = -1 -> <<Cmd("take", 0, w, IF has[w] = -1 THEN w ELSE has[w]), Cmd("call", 0, w, 1), Cmd("drop", 0, w, 0)>>
                         [] OTHER -> <<Cmd("call", has[w], w, 1), Cmd("drop", has[w], w, 0)>>)
Emit == Len(prog) = Len0 => PrintT(ToJson(prog \o Rest(Len(has))))
=============================================================================
