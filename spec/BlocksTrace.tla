---------------------------- MODULE BlocksTrace ----------------------------
(***************************************************************************)
(* Is a recorded history of the built-in allocators one of Blocks?  Block  *)
(* bounds come as ranks of the addresses seen.  mapped is in KB.           *)
(***************************************************************************)
EXTENDS Blocks, TLCExt, Json, IOUtils

CONSTANTS
  Times,      \* mapped memory may be this many times the most that was live at once
  Slack       \* plus this many KB per allocator in use

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, sum, peak, owners
tvars == <<bvars, l, sum, peak, owners>>

TInit == Init /\ l = 1 /\ sum = 0 /\ peak = 0 /\ owners = {}

SizeOf(b) == (CHOOSE x \in live : x.b = b).size
Max(a, b) == IF a > b THEN a ELSE b
Stay == UNCHANGED <<sum, peak, owners>>

Step(e) ==
  CASE e.e = "take" -> /\ e.ok
                       /\ Take(e.b, e.own, e.size, [lo |-> e.xlo, hi |-> e.xhi], [lo |-> e.wlo, hi |-> e.whi])
                       /\ sum' = sum + e.size
                       /\ peak' = Max(peak, sum + e.size)
                       /\ owners' = owners \cup {e.own}
    [] e.e = "nothing" -> UNCHANGED live /\ Stay           \* a request nothing can satisfy was refused
    [] e.e = "fill" -> Fill(e.b, e.v) /\ Stay
    [] e.e = "look" -> Look(e.b, e.v) /\ Stay
    [] e.e = "give" -> Give(e.t, e.b) /\ sum' = sum - SizeOf(e.b) /\ UNCHANGED <<peak, owners>>
    [] e.e = "gave" -> e.ok /\ UNCHANGED live /\ Stay
    \* many blocks of one size taken and given back one after the other
    [] e.e = "churn" -> /\ e.ok
                        /\ UNCHANGED <<live, sum>>
                        /\ peak' = Max(peak, sum + e.size)
                        /\ owners' = owners \cup {e.own}
    [] e.e = "mapped" -> /\ e.kb <= Times * ((peak + 1023) \div 1024) + Slack * Cardinality(owners)
                         /\ UNCHANGED live /\ Stay
    \* requests of a thread that is ending: answered, if only with an error
    [] e.e = "late" -> e.ok /\ UNCHANGED live /\ Stay
    [] e.e = "reset" -> live = {} /\ UNCHANGED live /\ Stay
    [] OTHER -> FALSE

TNext == l <= Len(TraceLog) /\ Step(TraceLog[l]) /\ l' = l + 1 /\ UNCHANGED <<gone, mem>>
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == PrintT(<<"EXPLAINED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
=============================================================================
