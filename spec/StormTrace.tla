----------------------------- MODULE StormTrace -----------------------------
(***************************************************************************)
(* Is a recorded run of several threads one of Storm?                      *)
(***************************************************************************)
EXTENDS Storm, TLCExt, Json, IOUtils

CONSTANTS Slack      \* KB the allocator may keep mapped

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
TInit == Init /\ l = 1

Same == UNCHANGED <<st, at, own, runs>>
Observe(e) ==
  CASE e.e = "made" -> e.ok /\ Made(e.t, e.w, e.p)
    [] e.e = "called" -> e.bad = 0 /\ Called(e.t, e.w, e.n)
    [] e.e = "passed" -> Passed(e.t, e.w)
    [] e.e = "shared" -> Shared(e.t, e.w)
    [] e.e = "got" -> Got(e.t, e.w)
    [] e.e = "going" -> Going(e.t, e.w)
    [] e.e = "destroyed" -> Destroyed(e.t, e.w, e.n)
    [] e.e = "gone" -> Gone(e.t, e.w)
    \* wrappers made, called and dropped at once, over and over
    [] e.e = "churned" -> e.bad = 0 /\ Same
    [] e.e = "mapped" -> e.kb <= Slack /\ Same
    [] e.e = "reset" -> /\ \A w \in W : st[w] \in {"no", "gone"}
                        /\ st' = [w \in W |-> "no"] /\ runs' = [w \in W |-> 0] /\ UNCHANGED <<at, own>>
    [] OTHER -> FALSE

TNext == l <= Len(TraceLog) /\ Observe(TraceLog[l]) /\ l' = l + 1 /\ UNCHANGED <<lock, work, taken>>
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == PrintT(<<"EXPLAINED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
=============================================================================
