----------------------------- MODULE HandlesGen -----------------------------
(* Request programs for the replay: every request through every handle, and random sequences. *)
EXTENDS Integers, Sequences, TLC, Json, Randomization

CONSTANTS
  Hs,         \* handles: names the harness knows
  Shared,     \* handles usable from several threads
  Ts,         \* threads
  As,         \* allocators
  Len0,       \* commands per program
  Walk        \* random walks instead of single requests

VARIABLE prog
gvars == <<prog>>

Sizes == {"0", "1", "4096", "max"}
Ptrs == {"null", "one", "mid", "top"}

Requests ==
  [op : {"alloc"}, size : Sizes, ans : {"ok", "same", "err"}, ptr : {"null"}, acc : {"rw"}]
  \cup [op : {"release"}, size : {"0"}, ans : {"ok", "err"}, ptr : Ptrs, acc : {"rw"}]
  \cup [op : {"protect"}, size : Sizes, ans : {"ok"}, ptr : Ptrs, acc : {"rw", "rx"}]
  \cup [op : {"flush"}, size : Sizes, ans : {"ok"}, ptr : Ptrs, acc : {"rx"}]
  \cup [op : {"use"}, size : {"0"}, ans : {"ok"}, ptr : {"null"}, acc : {"rw"}]

Cmd(t, h, a, r) == [t |-> t, h |-> h, a |-> a, op |-> r.op, size |-> r.size, ans |-> r.ans, ptr |-> r.ptr, acc |-> r.acc]

\* one element at random; depends on the state, so that TLC picks anew in every step
One(S) == IF Len(prog) >= 0 THEN {RandomElement(S)} ELSE {}

Init == prog = <<>>
Next ==
  /\ Len(prog) < Len0
  /\ IF Walk
     THEN \E t \in One(Ts) : \E h \in One(IF t = 1 THEN Hs ELSE Shared), a \in One(As), r \in One(Requests) :
            prog' = Append(prog, Cmd(t, h, a, r))
     ELSE \E h \in Hs, a \in As, r \in Requests : prog' = Append(prog, Cmd(1, h, a, r))
Spec == Init /\ [][Next]_gvars
Emit == Len(prog) = Len0 => PrintT(ToJson(prog))
=============================================================================
