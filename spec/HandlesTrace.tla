---------------------------- MODULE HandlesTrace ----------------------------
(***************************************************************************)
(* Is a recorded run a behaviour of Handles?  The layers of a handle are   *)
(* not observable, so requests enter at the innermost one.  A "use" makes, *)
(* calls and destroys a whole wrapper: the requests it makes are its own,  *)
(* but they must reach the handle's allocator and add up to one block      *)
(* taken and the same block given back.                                    *)
(***************************************************************************)
EXTENDS Handles, TLC, TLCExt, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, use          \* thread -> the wrapper being used, or NoUse
tvars == <<hvars, l, use>>

NoUse == [a |-> 0, got |-> <<>>]
TInit == HInit /\ l = 1 /\ use = [t \in T |-> NoUse]

Got(e) ==
  IF use[e.t].a # 0
  THEN /\ e.a = use[e.t].a
       /\ use' = [use EXCEPT ![e.t].got = Append(@, [op |-> e.op, arg |-> e.arg, ans |-> e.ans])]
       /\ UNCHANGED hvars
  ELSE Serve(e.t, e.a, e.op, e.arg, e.ans) /\ UNCHANGED use

UseEnd(e) ==
  LET g == use[e.t].got
      al(r) == r.op = "alloc"
      re(r) == r.op = "release"
      x == SelectSeq(g, al)
      y == SelectSeq(g, re)
  IN /\ use[e.t].a # 0
     /\ e.r = e.want
     /\ Len(x) = 1 /\ Len(y) = 1
     /\ y[1].arg[1] = x[1].ans[2]
     /\ use' = [use EXCEPT ![e.t] = NoUse]
     /\ UNCHANGED hvars

Step(e) ==
  CASE e.e = "req" -> Ask(e.t, e.a, 0, e.op, e.arg) /\ use[e.t].a = 0 /\ UNCHANGED use
    [] e.e = "got" -> Got(e)
    [] e.e = "ret" -> Done(e.t, e.ans) /\ UNCHANGED use
    [] e.e = "use_b" -> /\ use[e.t].a = 0 /\ pend[e.t].at = "idle"
                        /\ use' = [use EXCEPT ![e.t] = [a |-> e.a, got |-> <<>>]]
                        /\ UNCHANGED hvars
    [] e.e = "use_e" -> UseEnd(e)
    [] e.e = "reset" -> /\ pend' = [t \in T |-> Idle]
                        /\ served' = [a \in A |-> <<>>]
                        /\ asked' = <<>>
                        /\ use' = [t \in T |-> NoUse]
                        /\ \A t \in T : pend[t].at = "idle" /\ use[t].a = 0
    [] OTHER -> FALSE

TNext ==
  /\ l <= Len(TraceLog)
  /\ Step(TraceLog[l])
  /\ l' = l + 1

TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == PrintT(<<"EXPLAINED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
=============================================================================
