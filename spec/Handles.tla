------------------------------- MODULE Handles -------------------------------
(***************************************************************************)
(* Allocator requests made through handles.                                *)
(*                                                                         *)
(* A handle is a stack of layers (reference, box, counted pointer, guard,  *)
(* program-wide allocator, ..) over one of the allocators.  A request      *)
(* enters at the outermost layer, is passed on layer by layer, is answered *)
(* by the allocator, and the answer travels back.  `asked` is what clients *)
(* saw, `served` what allocators saw.                                      *)
(*                                                                         *)
(* Used by: TLC with the invariants below (Faults must be refuted),        *)
(* HandlesGen (programs for the replay), HandlesTrace (recorded runs).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  T,          \* threads
  A,          \* allocators
  Ops,        \* requests
  Args,       \* argument tuples are taken from here
  Answers,
  MaxLayers,
  MaxReqs,    \* per behaviour
  Fault       \* "none" | "twice" | "drop" | "mangle" | "invent" | "other" | "mask"

VARIABLES
  pend,       \* thread -> request on its way, or Idle
  served,     \* allocator -> requests it has answered, in order
  asked       \* requests clients got answers for, in order

hvars == <<pend, served, asked>>

Idle == [at |-> "idle"]
Req(a, layers, op, arg) ==
  [at |-> "down", a |-> a, left |-> layers, layers |-> layers, op |-> op, arg |-> arg]

HInit ==
  /\ pend = [t \in T |-> Idle]
  /\ served = [a \in A |-> <<>>]
  /\ asked = <<>>

\* the client makes a request through a handle to allocator a
Ask(t, a, layers, op, arg) ==
  /\ pend[t].at = "idle"
  /\ pend' = [pend EXCEPT ![t] = Req(a, layers, op, arg)]
  /\ UNCHANGED <<served, asked>>

\* one layer passes the request on
Down(t) ==
  /\ pend[t].at = "down" /\ pend[t].left > 0
  /\ pend' = [pend EXCEPT ![t].left = @ - 1]
  /\ UNCHANGED <<served, asked>>

\* the allocator gets the request and answers
Serve(t, a, op, arg, ans) ==
  /\ pend[t].at = "down" /\ pend[t].left = 0
  /\ pend[t].a = a /\ pend[t].op = op /\ pend[t].arg = arg
  /\ served' = [served EXCEPT ![a] = Append(@, [t |-> t, op |-> op, arg |-> arg, ans |-> ans])]
  /\ pend' = [pend EXCEPT ![t] = [at |-> "up", a |-> a, left |-> pend[t].layers, layers |-> pend[t].layers,
                                  op |-> op, arg |-> arg, ans |-> ans]]
  /\ UNCHANGED asked

Up(t) ==
  /\ pend[t].at = "up" /\ pend[t].left > 0
  /\ pend' = [pend EXCEPT ![t].left = @ - 1]
  /\ UNCHANGED <<served, asked>>

\* the client gets the answer
Done(t, ans) ==
  /\ pend[t].at = "up" /\ pend[t].left = 0
  /\ ans = pend[t].ans
  /\ asked' = Append(asked, [t |-> t, a |-> pend[t].a, op |-> pend[t].op, arg |-> pend[t].arg, ans |-> ans])
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED served

-----------------------------------------------------------------------------
\* mistakes a layer could make
Wrong(t) ==
  LET p == pend[t] IN
  \/ /\ Fault = "twice" /\ p.at = "up"
     /\ pend' = [pend EXCEPT ![t] = Req(p.a, p.layers, p.op, p.arg)] /\ UNCHANGED <<served, asked>>
  \/ /\ Fault = "drop" /\ p.at = "down"
     /\ \E ans \in Answers : pend' = [pend EXCEPT ![t] = [at |-> "up", a |-> p.a, left |-> 0, layers |-> p.layers,
                                                          op |-> p.op, arg |-> p.arg, ans |-> ans]]
     /\ UNCHANGED <<served, asked>>
  \/ /\ Fault = "mangle" /\ p.at = "down" /\ \E x \in Args \ {p.arg} : served' = [served EXCEPT
           ![p.a] = Append(@, [t |-> t, op |-> p.op, arg |-> x, ans |-> CHOOSE y \in Answers : TRUE])]
     /\ pend' = [pend EXCEPT ![t] = [at |-> "up", a |-> p.a, left |-> 0, layers |-> p.layers, op |-> p.op,
                                     arg |-> p.arg, ans |-> CHOOSE y \in Answers : TRUE]]
     /\ UNCHANGED asked
  \/ /\ Fault = "invent" /\ p.at = "up"
     /\ \E ans \in Answers \ {p.ans} : pend' = [pend EXCEPT ![t].ans = ans] /\ UNCHANGED <<served, asked>>
  \/ /\ Fault = "other" /\ p.at = "down"
     /\ \E b \in A \ {p.a} : \E ans \in Answers :
          /\ served' = [served EXCEPT ![b] = Append(@, [t |-> t, op |-> p.op, arg |-> p.arg, ans |-> ans])]
          /\ pend' = [pend EXCEPT ![t] = [at |-> "up", a |-> p.a, left |-> 0, layers |-> p.layers, op |-> p.op,
                                          arg |-> p.arg, ans |-> ans]]
     /\ UNCHANGED asked
  \/ /\ Fault = "mask" /\ p.at = "down" /\ p.left > 0
     /\ \E op \in Ops \ {p.op} : pend' = [pend EXCEPT ![t].op = op] /\ UNCHANGED <<served, asked>>

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN Len(served[a]) + Total(S \ {a})
Flying == Cardinality({t \in T : pend[t].at # "idle"})

HNext ==
  \E t \in T :
    \/ /\ Total(A) + Flying < MaxReqs
       /\ \E a \in A, n \in 0..MaxLayers, op \in Ops, x \in Args : Ask(t, a, n, op, x)
    \/ Down(t) \/ Up(t)
    \/ \E a \in A, op \in Ops, x \in Args, ans \in Answers : Serve(t, a, op, x, ans)
    \/ \E ans \in Answers : Done(t, ans)
    \/ pend[t].at # "idle" /\ Total(A) < MaxReqs /\ Wrong(t)

HSpec == HInit /\ [][HNext]_hvars

-----------------------------------------------------------------------------
Only(s, P(_)) == SelectSeq(s, P)

\* what a thread asked of an allocator is, in order and in full, what that allocator served to it
Faithful ==
  \A t \in T : pend[t].at = "idle" =>
    \A a \in A :
      LET mine(r) == r.t = t /\ r.a = a
          his(r) == r.t = t
          x == Only(asked, mine)
          y == Only(served[a], his)
      IN /\ Len(x) = Len(y)
         /\ \A i \in 1..Len(x) : x[i].op = y[i].op /\ x[i].arg = y[i].arg /\ x[i].ans = y[i].ans

\* while a request is on its way, at most that one differs
Once ==
  \A t \in T : \A a \in A :
    LET mine(r) == r.t = t /\ r.a = a
        his(r) == r.t = t
        d == Len(Only(served[a], his)) - Len(Only(asked, mine))
    IN d = IF pend[t].at = "up" /\ pend[t].a = a THEN 1 ELSE 0

\* the request itself never changes on its way
SameRequest == [][\A t \in T : pend[t].at # "idle" /\ pend'[t].at # "idle" =>
                    pend'[t].op = pend[t].op /\ pend'[t].arg = pend[t].arg /\ pend'[t].a = pend[t].a]_hvars
=============================================================================
