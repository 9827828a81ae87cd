------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* What the built-in allocators promise.                                   *)
(*                                                                         *)
(* There is one global allocator for all threads and one per thread.  A    *)
(* live block occupies one range in the executable view and one in the     *)
(* writable view; ranges of live blocks are disjoint in each view, both    *)
(* views show what the owner wrote last, and releasing gives the range     *)
(* back.  An allocator may keep memory mapped for later, but what it has   *)
(* mapped is bounded by what was live at the same time, not by the number  *)
(* of requests.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  T,          \* threads
  Cells,      \* positions in each view (model checking)
  Sizes,
  MaxBlocks,
  Fault       \* "none" | "leak" | "overlap" | "views" | "short"

VARIABLES
  live,       \* blocks: [b, own, rx, rw, size, val]: ranges are [lo, hi)
  gone,       \* cells that are neither live nor free (model checking)
  mem         \* cell -> contents, of the memory under both views (model checking)

bvars == <<live, gone, mem>>

Disjoint(r, s) == r.hi <= s.lo \/ s.hi <= r.lo

\* own: 0 for the global allocator, otherwise the thread whose allocator it is
Take(b, own, size, rx, rw) ==
  /\ \A x \in live : x.b # b /\ Disjoint(rx, x.rx) /\ Disjoint(rw, x.rw)
  /\ live' = live \cup {[b |-> b, own |-> own, rx |-> rx, rw |-> rw, size |-> size, val |-> 0]}

Fill(b, v) ==
  /\ \E x \in live : x.b = b
  /\ live' = {IF x.b = b THEN [x EXCEPT !.val = v] ELSE x : x \in live}

\* what reading the whole block through the executable view shows
Look(b, v) == \E x \in live : x.b = b /\ x.val = v /\ UNCHANGED live

Give(t, b) ==
  /\ \E x \in live : x.b = b /\ x.own \in {0, t}
  /\ live' = {x \in live : x.b # b}

-----------------------------------------------------------------------------
\* an allocator over Cells: both views are the same numbers here
Used == UNION {x.rx.lo..(x.rx.hi - 1) : x \in live}
Range(lo, n) == [lo |-> lo, hi |-> lo + n]
\* the cells under a block's executable view
Under(x) == IF Fault = "views" THEN {((c + 1) % Cardinality(Cells)) : c \in x.rx.lo..(x.rx.hi - 1)} ELSE x.rx.lo..(x.rx.hi - 1)

Init == live = {} /\ gone = {} /\ mem = [c \in Cells |-> 0]
Next ==
  \/ \E b \in 1..MaxBlocks, t \in {0} \cup T, n \in Sizes, lo \in Cells :
       /\ \A x \in live : x.b # b
       /\ LET r == Range(lo, IF Fault = "short" /\ n > 1 THEN n - 1 ELSE n) IN
          /\ \A c \in r.lo..(r.hi - 1) : c \in Cells \ gone
          /\ Fault = "overlap" \/ \A c \in r.lo..(r.hi - 1) : c \notin Used
          /\ live' = live \cup {[b |-> b, own |-> t, rx |-> r, rw |-> r, size |-> n, val |-> 0]}
          /\ mem' = [c \in Cells |-> IF c \in r.lo..(r.lo + n - 1) THEN 0 ELSE mem[c]]
          /\ UNCHANGED gone
  \/ \E x \in live, v \in 1..2 :
       /\ Fill(x.b, v)
       /\ mem' = [c \in Cells |-> IF c \in x.rw.lo..(x.rw.lo + x.size - 1) THEN v ELSE mem[c]]
       /\ UNCHANGED gone
  \/ \E x \in live, t \in T :
       /\ Give(t, x.b)
       /\ gone' = IF Fault = "leak" THEN gone \cup (x.rx.lo..(x.rx.hi - 1)) ELSE gone
       /\ UNCHANGED mem
Spec == Init /\ [][Next]_bvars

\* disjoint live blocks ..
Apart == \A x, y \in live : x.b # y.b => Disjoint(x.rx, y.rx) /\ Disjoint(x.rw, y.rw)
\* .. at least as large as asked for ..
Large == \A x \in live : x.rx.hi - x.rx.lo >= x.size /\ x.rw.hi - x.rw.lo >= x.size
\* .. both views of which show what was written ..
Shows == \A x \in live : \A c \in Under(x) : mem[c] = x.val
\* .. and nothing is lost
Reusable == gone = {}
=============================================================================
