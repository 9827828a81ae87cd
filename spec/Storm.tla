------------------------------- MODULE Storm -------------------------------
(***************************************************************************)
(* Threads that make, call, pass on and drop wrappers through the one      *)
(* allocator of the program, all at the same time.                         *)
(*                                                                         *)
(* Making and dropping take the lock of the allocator for the moment they  *)
(* need memory; user code (bodies and destructors of closures) runs        *)
(* without it and may itself make, call and drop wrappers.  What the       *)
(* threads see is what the operators of the first part allow, whatever the *)
(* order of the steps in the second.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  T,          \* threads
  W,          \* wrappers
  P,          \* places for functions
  Deep,       \* how far user code nests (model checking)
  Fault       \* "none" | "hold" | "unlocked" | "early" | "refuse" | "keep"

VARIABLES
  st,         \* wrapper -> "no" | "live" | "going" | "bare" | "gone"
  at,         \* wrapper -> place of its function
  own,        \* wrapper -> thread that has it; 0: on its way; -1: shared by all
  runs,       \* wrapper -> how often its body ran
  lock,       \* thread that has the lock of the allocator, or 0
  work,       \* thread -> what it is doing, innermost last
  taken       \* places the allocator has handed out
svars == <<st, at, own, runs, lock, work, taken>>

-----------------------------------------------------------------------------
\* what can be observed
Live == {w \in W : st[w] = "live"}

Made(t, w, p) ==
  /\ st[w] = "no"
  /\ \A v \in Live : at[v] # p
  /\ st' = [st EXCEPT ![w] = "live"] /\ at' = [at EXCEPT ![w] = p] /\ own' = [own EXCEPT ![w] = t]
  /\ UNCHANGED runs

\* n calls, all of which reached the closure of w
Called(t, w, n) ==
  /\ st[w] = "live" /\ own[w] \in {t, -1}
  /\ runs' = [runs EXCEPT ![w] = @ + n]
  /\ UNCHANGED <<st, at, own>>

Passed(t, w) == st[w] = "live" /\ own[w] = t /\ own' = [own EXCEPT ![w] = 0] /\ UNCHANGED <<st, at, runs>>
Shared(t, w) == st[w] = "live" /\ own[w] = t /\ own' = [own EXCEPT ![w] = -1] /\ UNCHANGED <<st, at, runs>>
Got(t, w) == st[w] = "live" /\ own[w] \in {0, -1} /\ own' = [own EXCEPT ![w] = t] /\ UNCHANGED <<st, at, runs>>

Going(t, w) == st[w] = "live" /\ own[w] = t /\ st' = [st EXCEPT ![w] = "going"] /\ UNCHANGED <<at, own, runs>>
\* the closure is destroyed, after n runs
Destroyed(t, w, n) == st[w] = "going" /\ own[w] = t /\ runs[w] = n /\ st' = [st EXCEPT ![w] = "bare"] /\ UNCHANGED <<at, own, runs>>
Gone(t, w) == st[w] = "bare" /\ own[w] = t /\ st' = [st EXCEPT ![w] = "gone"] /\ UNCHANGED <<at, own, runs>>

-----------------------------------------------------------------------------
\* how the library gets there
Top(t) == work[t][Len(work[t])]
Push(t, f) == work' = [work EXCEPT ![t] = Append(@, f)]
Pop(t) == work' = [work EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Move(t, at2) == work' = [work EXCEPT ![t][Len(work[t])].k = at2]
User(t) == IF work[t] = <<>> THEN TRUE ELSE Top(t).k \in {"body", "drop"}       \* user code may go on
Busy(w) == \E t \in T : \E i \in 1..Len(work[t]) : work[t][i].w = w

Begin(t) ==
  /\ User(t) /\ Len(work[t]) < Deep
  /\ \/ \E w \in W : st[w] = "no" /\ ~Busy(w) /\ Push(t, [k |-> "want", w |-> w])
                     /\ UNCHANGED <<st, at, own, runs, lock, taken>>
     \/ \E w \in Live : own[w] \in {t, -1} /\ Called(t, w, 1) /\ Push(t, [k |-> "body", w |-> w]) /\ UNCHANGED <<lock, taken>>
     \/ \E w \in Live : own[w] = t /\ ~Busy(w) /\ Going(t, w) /\ Push(t, [k |-> "drop", w |-> w])
                        \* Fault: the lock is taken before the destructor runs
                        /\ (IF Fault = "hold" THEN lock = 0 /\ lock' = t ELSE UNCHANGED lock)
                        \* Fault: the memory is given back before the destructor runs
                        /\ taken' = IF Fault = "early" THEN taken \ {at[w]} ELSE taken

Step(t) ==
  /\ Len(work[t]) > 0
  /\ LET f == Top(t) IN
     CASE f.k = "want" ->     \* making: the lock ..
            /\ lock = 0 \/ Fault = "unlocked"
            /\ lock' = t
            /\ \E p \in P \ taken : work' = [work EXCEPT ![t][Len(work[t])] = [k |-> "pick", w |-> f.w, p |-> p]]
            /\ UNCHANGED <<st, at, own, runs, taken>>
       [] f.k = "pick" ->     \* .. a place, and the function is there
            /\ lock' = 0
            /\ taken' = taken \cup {f.p}
            /\ st' = [st EXCEPT ![f.w] = "live"] /\ at' = [at EXCEPT ![f.w] = f.p] /\ own' = [own EXCEPT ![f.w] = t]
            /\ Pop(t)
            /\ UNCHANGED runs
       [] f.k = "body" -> Pop(t) /\ UNCHANGED <<st, at, own, runs, lock, taken>>
       [] f.k = "drop" -> Destroyed(t, f.w, runs[f.w]) /\ Move(t, "give") /\ UNCHANGED <<lock, taken>>
       [] f.k = "give" ->
            /\ lock = 0 \/ Fault = "hold"
            /\ lock' = 0
            /\ taken' = IF Fault = "keep" \/ (Fault = "refuse" /\ \E u \in T \ {t} : Len(work[u]) > 0) THEN taken
                        ELSE taken \ {at[f.w]}
            /\ Gone(t, f.w) /\ Pop(t)

Hand(t) ==
  /\ Len(work[t]) = 0
  /\ \E w \in Live : ~Busy(w) /\ (Passed(t, w) \/ Shared(t, w) \/ Got(t, w))
  /\ UNCHANGED <<lock, work, taken>>

Init ==
  /\ st = [w \in W |-> "no"] /\ at = [w \in W |-> 0] /\ own = [w \in W |-> 0] /\ runs = [w \in W |-> 0]
  /\ lock = 0 /\ work = [t \in T |-> <<>>] /\ taken = {}
Next == \E t \in T : Begin(t) \/ Step(t) \/ Hand(t)
Spec == Init /\ [][Next]_svars /\ \A t \in T : WF_svars(Step(t))

\* live functions are at different places, which the allocator knows of ..
Apart == \A v, w \in Live : v # w => at[v] # at[w]
Known == \A w \in W : st[w] \in {"live", "going", "bare"} => at[w] \in taken
\* .. and it knows of no others
Exact == \A p \in taken : \E w \in W : st[w] \in {"live", "going", "bare"} /\ at[w] = p
\* a thread is only ever stopped by one that holds the lock and can go on, or by a lack of places
Stopped(t) == Len(work[t]) > 0 /\ Top(t).k \in {"want", "give"} /\ lock # 0
Moves == \A t \in T : Stopped(t) => lock # t /\ Top(lock).k \in {"pick", "give"}
\* (model checking)
Bound == \A w \in W : runs[w] <= 2
=============================================================================
