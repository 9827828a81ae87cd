---------------------------- MODULE BareFnTrace ----------------------------
(***************************************************************************)
(* Is a recorded run of the real library a behaviour of BareFn?  Aspects   *)
(* selects the guard families, i.e. the property being decided.            *)
(***************************************************************************)
EXTENDS BareFn, TLC, TLCExt, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<vars, l>>

TInit == Init /\ l = 1

Fresh ==
  /\ wr' = [w \in W |-> NoW]
  /\ clo' = [w \in W |-> NoC]
  /\ blk' = [b \in B |-> NoB]
  /\ stk' = [t \in T |-> <<>>]
  /\ up' = TRUE

\* the harness lost step with the program because the library did not run a body or
\* destructor it should have run (or ran it twice)
Desync(why) ==
  /\ ~(why = "call" /\ (On("call") \/ On("panic")))
  /\ ~(why = "drop" /\ (On("clo") \/ On("panic")))
  /\ UNCHANGED vars

Step(e) ==
  CASE e.e = "ctor_b" -> CtorBegin(e.t, e.w, e.kind, e.cap, e.cc \in Unwinding, e.a, e.ref, e.want) /\ UNCHANGED up
    [] e.e = "alloc" -> Alloc(e.t, e.a, e.ok, e.b, e.size, e.lo, e.hi) /\ UNCHANGED up
    [] e.e = "prot" -> Protect(e.t, e.a, e.b, e.lo, e.hi, e.acc) /\ UNCHANGED up
    [] e.e = "write" -> Write(e.t, e.b, e.lo, e.hi) /\ UNCHANGED up
    [] e.e = "flush" -> Flush(e.t, e.a, e.b, e.lo, e.hi) /\ UNCHANGED up
    [] e.e = "ctor_e" ->
         (IF e.res = "ok" THEN CtorOk(e.t, e.w, e.p, e.pb, e.po, e.heap)
          ELSE CtorFail(e.t, e.w, e.res, e.heap)) /\ UNCHANGED up
    [] e.e = "clodrop" -> Destroy(e.t, e.c) /\ UNCHANGED up
    [] e.e = "release" -> Release(e.t, e.a, e.b, e.exact, e.ok) /\ UNCHANGED up
    [] e.e = "hdrop" -> HandleDrop(e.t, e.w) /\ UNCHANGED up
    [] e.e = "bare" -> Bare(e.t, e.w, e.p, e.pb, e.po) /\ UNCHANGED up
    [] e.e = "conv_b" -> ConvBegin(e.t, e.w) /\ UNCHANGED up
    [] e.e = "conv_e" -> ConvEnd(e.t, e.w, e.form, e.p, e.pb, e.po, e.heap) /\ UNCHANGED up
    [] e.e = "leak_e" -> LeakEnd(e.t, e.w, e.p, e.pb, e.po) /\ UNCHANGED up
    [] e.e = "call_b" -> CallBegin(e.t, e.w, e.p, e.x) /\ UNCHANGED up
    [] e.e = "body" -> Body(e.t, e.c, e.x, e.n) /\ UNCHANGED up
    [] e.e = "throw" -> Throw(e.t) /\ UNCHANGED up
    [] e.e = "tok" -> TokenDrop(e.t, e.x) /\ UNCHANGED up
    [] e.e = "call_e" -> CallEnd(e.t, e.w, e.r, e.pan) /\ UNCHANGED up
    [] e.e = "abort" -> Abort(e.t)
    [] e.e = "drop_b" -> DropBegin(e.t, e.w, e.uw) /\ UNCHANGED up
    [] e.e = "drop_e" -> DropEnd(e.t, e.w, e.pan, e.heap) /\ UNCHANGED up
    [] e.e = "desync" -> Desync(e.why)
    [] e.e = "reset" -> Fresh
    [] OTHER -> FALSE

TNext ==
  /\ l <= Len(TraceLog)
  /\ up \/ TraceLog[l].e = "reset"
  /\ Step(TraceLog[l])
  /\ l' = l + 1

TSpec == TInit /\ [][TNext]_tvars

\* reports how far the recorded run is explained; the driver compares with its length
TraceAccepted == PrintT(<<"EXPLAINED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
=============================================================================
