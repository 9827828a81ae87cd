------------------------------ MODULE Markers ------------------------------
(***************************************************************************)
(* Which threads may hold a closure: what each type on the way from a      *)
(* closure to a wrapper claims, and which steps the compiler must accept.  *)
(*                                                                         *)
(* at = "closure"  a closure that really supports the marks in real        *)
(*      "thunk"    made from it by a thunk-making function                 *)
(*      "typed", "untyped"  a wrapper storing it as a type with marks s    *)
(*                                                                         *)
(* Every step is tried in every state; Accept says which ones a compiler   *)
(* has to let through.  Leaky = TRUE gives thunks made for one mark both   *)
(* marks, what happens when one wrapper type serves all makers.            *)
(***************************************************************************)
EXTENDS FiniteSets, Naturals, Sequences, TLC, Json

CONSTANTS Leaky, Bound

Marks == SUBSET {"Send", "Sync"}
Families == {"once", "mut", "fn"}
Level(f) == CASE f = "once" -> 1 [] f = "mut" -> 2 [] f = "fn" -> 3
Makers == {"plain", "send", "sync", "sendsync", "trait"}
Asks(m) == CASE m = "send" -> {"Send"} [] m = "sync" -> {"Sync"} [] m = "sendsync" -> {"Send", "Sync"} [] OTHER -> {}
\* marks of the store behind the library's type aliases
Alias(f) == IF f = "fn" THEN {"Send", "Sync"} ELSE {"Send"}

VARIABLE v
Fields == {"at", "fam", "real", "s", "alloc", "made", "steps"}

Init == v \in [at : {"closure"}, fam : {"fn"}, real : Marks, s : {{}}, alloc : Marks, made : {""}, steps : {0}]

\* marks a closure or thunk type has for the compiler
Has(x) == IF x.at = "closure" THEN x.real
          ELSE IF Leaky /\ x.made \in {"send", "sync", "sendsync"} THEN {"Send", "Sync"} ELSE x.real

Claims(x) ==
  IF x.at \in {"closure", "thunk"} THEN Has(x)
  ELSE (IF "Send" \in x.s /\ "Send" \in x.alloc THEN {"Send"} ELSE {})
       \cup (IF (IF x.fam = "fn" THEN "Sync" ELSE "Send") \in x.s THEN {"Sync"} ELSE {})

(* Steps: <<name, family or maker, marks>> *)
Steps(x) ==
  CASE x.at = "closure" -> {<<"make", f, m, {}>> : f \in Families, m \in Makers}
                           \cup {<<"wrap", f, "", s>> : f \in Families, s \in Marks}
                           \cup {<<"alias", f, "", Alias(f)>> : f \in Families}
    [] x.at = "thunk" -> {<<"wrap", f, "", s>> : f \in {g \in Families : Level(g) <= Level(x.fam)}, s \in Marks}
    [] x.at = "typed" -> {<<"upcast", x.fam, "", s>> : s \in Marks} \cup {<<"untype", x.fam, "", x.s>>}
                         \cup {<<"from", x.fam, "", s>> : s \in Marks}
    [] OTHER -> {<<"upcast", x.fam, "", s>> : s \in Marks}

Accept(x, t) ==
  CASE t[1] = "make" -> Asks(t[3]) \subseteq Has(x)
    [] t[1] \in {"wrap", "alias"} -> t[4] \subseteq Has(x)
    [] t[1] \in {"upcast", "from"} -> t[4] \subseteq x.s
    [] OTHER -> TRUE

Do(x, t) ==
  [x EXCEPT !.at = CASE t[1] = "make" -> "thunk"
                     [] t[1] \in {"wrap", "alias"} -> "typed"
                     [] t[1] \in {"untype", "from"} -> "untyped"
                     [] OTHER -> x.at,
            !.fam = t[2], !.s = t[4], !.made = IF t[1] = "make" THEN t[3] ELSE @, !.steps = @ + 1]

Next == v.steps < Bound /\ \E t \in Steps(v) : Accept(v, t) /\ v' = Do(v, t)
Spec == Init /\ [][Next]_v

(* What other threads can do with a value of a type is only what the        *)
(* closure inside it, and the allocator, support.                           *)
Sound ==
  /\ v.at \in {"closure", "thunk"} => Claims(v) \subseteq v.real
  /\ v.at \in {"typed", "untyped"} =>
       /\ "Send" \in Claims(v) => "Send" \in v.real /\ "Send" \in v.alloc
       /\ "Sync" \in Claims(v) => (IF v.fam = "fn" THEN "Sync" ELSE "Send") \in v.real

\* everything a closure supports can be claimed by some way of wrapping it
Complete ==
  v.at = "closure" =>
    \A f \in Families, s \in SUBSET v.real : Accept(v, <<"wrap", f, "", s>>)

(* Probes: the state, what it claims and every step with its verdict.  The  *)
(* closure inside a wrapper no longer shows in its type.                    *)
Emit ==
  (v.at \in {"typed", "untyped"} => v.real = {"Send", "Sync"} /\ v.made = "" /\ v.steps = (IF v.at = "typed" THEN 1 ELSE 2))
  /\ (v.at \in {"closure", "thunk"} => v.alloc = {"Send", "Sync"})
  => PrintT(ToJson([at |-> v.at, fam |-> v.fam, real |-> v.real, s |-> v.s, alloc |-> v.alloc, made |-> v.made,
                    claims |-> Claims(v),
                    steps |-> {[step |-> t[1], fam |-> t[2], maker |-> t[3], s |-> t[4], ok |-> Accept(v, t)] : t \in Steps(v)}]))
=============================================================================
