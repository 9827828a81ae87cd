---------------------------- MODULE CachesTrace ----------------------------
(* Recorded requests to the built-in allocators and what they asked of the  *)
(* system, as steps of Caches.  Positions are relative to the request.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Size == 4096

VARIABLES stale, req, ph, ready, l
C == INSTANCE Caches WITH Fault <- "", Show <- FALSE

TInit == stale = {} /\ req = C!None /\ ph = "idle" /\ ready = {} /\ l = 1

Max(a, b) == IF a > b THEN a ELSE b
Step(e) ==
  CASE e.e = "ask" ->
         \* the bytes were written before
         /\ ph = "idle" /\ e.n <= Size
         /\ req' = [lo |-> 0, hi |-> e.n] /\ ph' = "asked" /\ stale' = 0..e.n - 1 /\ ready' = {}
    [] e.e = "sys" -> (IF ph = "idle" THEN UNCHANGED <<stale, req, ph, ready>> ELSE C!System(Max(e.lo, 0), Max(e.hi, 0)))
    [] e.e = "done" -> C!Answer /\ C!Visible'
    [] OTHER -> FALSE

TNext == l <= Len(TraceLog) /\ Step(TraceLog[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<stale, req, ph, ready, l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  PrintT(<<"EXPLAINED", d - 1, Len(TraceLog)>>)
=============================================================================
