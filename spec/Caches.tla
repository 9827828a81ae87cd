------------------------------- MODULE Caches -------------------------------
(***************************************************************************)
(* Making written code visible to instruction fetch on processors that do  *)
(* not do so by themselves.  Memory is a row of bytes; what was written    *)
(* stays stale until the system is asked to refresh a range with it.       *)
(* Whoever wrote a range asks the allocator, the allocator asks the        *)
(* system; when the allocator has answered, nothing of the range may be    *)
(* stale.                                                                  *)
(*                                                                         *)
(* Fault: "" | "none" (the system is not asked) | "short" (all but the     *)
(* last byte) | "late" (all but the first) | "length" (the length is taken *)
(* for the end)                                                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Size, Fault, Show

Bytes == 0..Size - 1
Range(lo, hi) == {b \in Bytes : lo <= b /\ b < hi}
None == [lo |-> 0, hi |-> 0]

VARIABLES
  stale,   \* bytes that instruction fetch may still see as they were
  req,     \* the request being served
  ph,      \* "idle" | "asked" (of the allocator) | "told" (the system)
  ready    \* bytes whose owner has been told that they can be executed
vars == <<stale, req, ph, ready>>

Init == stale = Bytes /\ req = None /\ ph = "idle" /\ ready = {}

Write(b) ==
  /\ ph = "idle"
  /\ stale' = stale \cup {b} /\ ready' = ready \ {b}
  /\ UNCHANGED <<req, ph>>

Request(lo, hi) ==
  /\ ph = "idle" /\ lo < hi
  /\ req' = [lo |-> lo, hi |-> hi] /\ ph' = "asked"
  /\ UNCHANGED <<stale, ready>>

\* the system refreshes at least the range it is told
System(lo, hi) ==
  /\ ph \in {"asked", "told"}
  /\ stale' = stale \ Range(lo, hi) /\ ph' = "told"
  /\ UNCHANGED <<req, ready>>

Scheme ==
  /\ ph = "asked"
  /\ CASE Fault = "" -> System(req.lo, req.hi)
       [] Fault = "none" -> System(req.lo, req.lo)
       [] Fault = "short" -> System(req.lo, req.hi - 1)
       [] Fault = "late" -> System(req.lo + 1, req.hi)
       [] Fault = "length" -> System(req.lo, req.hi - req.lo)

Answer ==
  /\ ph = "told"
  /\ ready' = ready \cup Range(req.lo, req.hi)
  /\ req' = None /\ ph' = "idle"
  /\ UNCHANGED stale

Next ==
  \/ \E b \in Bytes : Write(b)
  \/ \E lo, hi \in 0..Size : Request(lo, hi)
  \/ Scheme \/ Answer
Spec == Init /\ [][Next]_vars

\* what may be executed is what was written
Visible == ready \cap stale = {}

(* Requests for the replay *)
Offsets == {0, 1, 2, 3, 4, 28, 31, 32, 33, 60, 63, 64, 100}
Lengths == {1, 2, 3, 4, 5, 31, 32, 33, 64, 65, 127, 200}
ASSUME Show => PrintT(ToJson({[off |-> o, n |-> n] : o \in Offsets, n \in Lengths}))
=============================================================================
