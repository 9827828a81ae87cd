------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* Programs that make, convert, keep and leak wrappers around closures and *)
(* allocators that borrow, and which of them the compiler must accept.     *)
(*                                                                         *)
(* A program is: a place where the borrowed data lives, a constructor,     *)
(* conversions, and a final use.  Regions are "static" and "local": local  *)
(* data dies before the last use point of the program.                     *)
(*                                                                         *)
(* The function type is written out, or declared through the macro with or *)
(* without the word unsafe, or written out without it.  The last one is    *)
(* not a type the library takes: its calls would be safe.                  *)
(*                                                                         *)
(* Forget = TRUE drops the region of the stored closure in conversions,    *)
(* Loose = TRUE lets anything be leaked.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Forget, Loose, Bound, Ctors

Families == {"once", "mut", "fn"}
Regions == {"static", "local"}
Conversions == {"upcast", "untype", "from", "moved", "lengthen"}
Uses == {"inside",       \* the function is called while everything lives
         "after",        \* the wrapper is used after the local data died
         "return",       \* the wrapper leaves the scope of the data
         "leak",         \* made permanent
         "thread",       \* kept by something that requires static data
         "bare",         \* the function pointer is taken by reference
         "twice",        \* used after it was consumed
         "safe",         \* called outside an unsafe block
         "through",      \* called by the trait of function types outside an unsafe block
         "conjure"}      \* made from a plain pointer outside an unsafe block
Unguarded == {"safe", "through", "conjure"}
Sigs == {"written", "declared", "relaxed", "lax"}

VARIABLES sig, fam, ctor, data, alloc, typed, region, convs, use, ok
pvars == <<sig, fam, ctor, data, alloc, typed, region, convs, use, ok>>

Shorter(a, b) == IF a = "local" \/ b = "local" THEN "local" ELSE "static"

Init ==
  /\ fam \in Families /\ ctor \in Ctors /\ data \in Regions /\ alloc \in Regions
  /\ sig \in Sigs /\ (sig # "written" => ctor \in {"new", "cc", "thunk"})
  /\ typed = TRUE /\ region = data /\ convs = <<>> /\ use = "" /\ ok = (sig # "lax")

Convert ==
  /\ use = "" /\ ok /\ Len(convs) < (IF sig = "written" THEN Bound ELSE 0)
  /\ \E c \in Conversions :
     /\ c \in {"untype", "from"} => typed
     /\ convs' = Append(convs, c)
     /\ typed' = (typed /\ c \notin {"untype", "from"})
     \* the compiler refuses to name a longer region than the closure has
     /\ ok' = (c = "lengthen" => region = "static" \/ Forget)
     /\ region' = IF c = "lengthen" \/ (Forget /\ c = "upcast") THEN "static" ELSE region
  /\ UNCHANGED <<sig, fam, ctor, data, alloc, use>>

Held == Shorter(region, alloc)

Finish ==
  /\ use = "" /\ ok
  /\ \E u \in Uses :
     /\ u \in {"through", "conjure"} => typed /\ (fam = "once" => Held = "static")
     /\ use' = u
     /\ ok' = CASE u \in {"after", "return", "thread"} -> Held = "static"
                [] u = "leak" -> Held = "static" \/ Loose
                [] u = "bare" -> fam # "once"
                [] u \in Unguarded \cup {"twice"} -> FALSE
                [] OTHER -> TRUE
  /\ UNCHANGED <<sig, fam, ctor, data, alloc, typed, region, convs>>

Next == Convert \/ Finish
Spec == Init /\ [][Next]_pvars

\* no accepted program touches dead data or calls without unsafe
Sound ==
  (ok /\ use # "") =>
    /\ use \in {"after", "return", "leak", "thread"} => data = "static" /\ alloc = "static"
    /\ use = "bare" => fam # "once"
    /\ use \notin Unguarded \cup {"twice"} /\ sig # "lax"
\* programs that only use live data are accepted
Complete ==
  /\ sig # "lax" /\ (use = "inside" \/ (use = "bare" /\ fam # "once")) => ok
  /\ (use \in {"after", "return", "leak", "thread"} /\ data = "static" /\ alloc = "static") => ok

\* an object cannot be lengthened from inside its scope; every other program is printed once
Emit ==
  (use # "" \/ ~ok) => PrintT(ToJson([sig |-> sig, fam |-> fam, ctor |-> ctor, data |-> data, alloc |-> alloc, convs |-> convs,
                                      typed |-> typed, use |-> use, ok |-> ok]))
=============================================================================
