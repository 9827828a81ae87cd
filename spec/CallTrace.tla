----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Is a recorded sequence of calls one the machine of Call.tla allows?     *)
(* Every event is judged in the state the earlier ones lead to; the        *)
(* numbers of those it does not allow are reported.                        *)
(*                                                                         *)
(* Events: case (a new wrapper), call (the caller passes a), enter (the    *)
(* closure gets a, its captures being intact), leave (it returns r), ret   *)
(* (the caller gets r), keep (registers before and after, distance of the  *)
(* stack pointer, alignment seen inside), same (two pointers to one        *)
(* function), end (arguments still alive), crash, refused.                 *)
(***************************************************************************)
EXTENDS Abi, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, at, sent, got, now, bad
tvars == <<l, at, sent, got, now, bad>>

TInit == l = 1 /\ at = "idle" /\ sent = <<>> /\ got = "" /\ now = [lane |-> "", cc |-> "", sig |-> <<>>] /\ bad = <<>>

Allowed(e) ==
  CASE e.e = "case" -> at = "idle"
    [] e.e = "call" -> at = "idle"
    [] e.e = "enter" -> at = "called" /\ e.a = sent /\ e.cap
    [] e.e = "leave" -> at = "ran"
    [] e.e = "ret" -> at = "left" /\ e.r = got
    [] e.e = "keep" ->
         /\ at = "idle"
         /\ LET rule == Rule(now.lane, now.cc) IN
            /\ \A x \in Preserved(rule) : e.before[x] = e.after[x]
            /\ e.sp = Pops(rule, Layout(rule, Start, now.sig).st)
            /\ e.align % Alignment(rule) = 0
    [] e.e = "same" -> e.p = e.q
    [] e.e = "end" -> at = "idle" /\ e.live = 0
    [] e.e = "refused" -> now.lane \in {"armv7", "thumbv7neon"}
    [] OTHER -> FALSE

After(e) ==
  CASE e.e = "call" -> "called"
    [] e.e = "enter" -> "ran"
    [] e.e = "leave" -> "left"
    [] e.e \in {"same"} -> at
    [] OTHER -> "idle"

TNext ==
  /\ l <= Len(TraceLog)
  /\ LET e == TraceLog[l] IN
     /\ at' = After(e)
     /\ sent' = IF e.e = "call" THEN e.a ELSE sent
     /\ got' = IF e.e = "leave" THEN e.r ELSE got
     /\ now' = IF e.e = "case" THEN [lane |-> e.lane, cc |-> e.cc, sig |-> e.sig] ELSE now
     /\ bad' = IF Allowed(e) \/ Len(bad) > 20 THEN bad ELSE Append(bad, l)
  /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars

Report == l = Len(TraceLog) + 1 => PrintT(<<"BAD", bad, l - 1>>)
=============================================================================
