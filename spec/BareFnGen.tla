----------------------------- MODULE BareFnGen -----------------------------
(***************************************************************************)
(* Walks Api.tla and prints the programs the harness replays.  A program   *)
(* is a sequence of commands; what happens inside a closure body or a      *)
(* closure destructor is the commands between call/ret (or panic) and      *)
(* drop/dret (or dpanic) of the same thread.                               *)
(***************************************************************************)
EXTENDS Api, TLC, Json

CONSTANTS
  Kinds, Caps, Stores, Ctors, Modes, Unwinds, Convs, As,  \* attributes of constructions (Convs: which of the
                      \* conventions that fit, 0: left to the harness)
  MaxLen, MaxDepth,
  Linger,   \* wrappers are dropped less often by this factor
  Free,     \* threads run at the same time: wrappers belong to one thread ...
  Shared,   \* ... except these, which exist from the start and are only called
  Rand      \* TRUE: pick attributes at random (simulation), FALSE: enumerate

VARIABLES
  h,      \* commands so far
  form,   \* wrapper -> [f: typed|untyped, s: storage, uw: convention may unwind, ud: being dropped by unwinding]
  fin     \* the process has ended (a panic that may not unwind)

gvars == <<avars, h, form, fin>>

Pick(S) == IF Rand /\ Len(h) >= 0 THEN {RandomElement(S)} ELSE S
\* true once in n times when simulating, always when enumerating
Rarely(n) == ~Rand \/ (Len(h) >= 0 /\ RandomElement(1..n) = 1)

GInit ==
  /\ st = [w \in W |-> IF w \in Shared THEN "live" ELSE "none"]
  /\ kind = [w \in W |-> IF w \in Shared THEN "fn" ELSE "none"]
  /\ used = [w \in W |-> FALSE]
  /\ cs = [t \in T |-> <<>>]
  /\ h = <<>>
  /\ form = [w \in W |-> [f |-> "none", s |-> "", uw |-> TRUE, ud |-> FALSE]]
  /\ fin = FALSE

Say(c) == h' = Append(h, c)
Keep == UNCHANGED <<form, fin>>

\* storages that type s may be upcast to
Weaker(s) ==
  CASE s = "sendsync" -> {"sendsync", "send", "sync", "any"}
    [] OTHER -> {s, "any"}

Mine(t, w) == w \notin Shared /\ (Free => (w % Cardinality(T)) + 1 = t)

GCtor(t) ==
  \E w \in W :
    /\ Mine(t, w)
    /\ \A v \in W : (v < w /\ Mine(t, v)) => st[v] # "none"
    /\ \E k \in Pick(Kinds), c \in Pick(Caps), s \in Pick(Stores), ct \in Pick(Ctors),
          m \in Pick(IF Rarely(2) THEN Modes ELSE {"ok"}), u \in Pick(Unwinds), v \in Pick(Convs), a \in Pick(As) :
         LET ok == m = "ok" \/ (m = "noalloc" /\ c = "zst") IN
         /\ m = "noreloc" => c # "zst"
         /\ ACtor(t, w, k, ok)
         /\ form' = [form EXCEPT ![w] = [f |-> "typed", s |-> s, uw |-> u, ud |-> FALSE]]
         /\ Say([c |-> "ctor", t |-> t, w |-> w, kind |-> k, cap |-> c, store |-> s, how |-> ct,
                 mode |-> m, uw |-> u, a |-> a, cv |-> v])
         /\ UNCHANGED fin

GBare(t) ==
  \E w \in Pick(W) :
    /\ Mine(t, w) /\ st[w] = "live" /\ kind[w] # "once" /\ Rarely(3)
    /\ Say([c |-> "bare", t |-> t, w |-> w])
    /\ UNCHANGED avars /\ Keep

GConv(t) ==
  \E w \in Pick(W), how \in Pick({"move", "untyped", "into", "upcast"}) :
    \E s2 \in Pick(Weaker(form[w].s)) :
      /\ Mine(t, w) /\ st[w] = "live"
      /\ how \in {"untyped", "into"} => form[w].f = "typed"
      /\ how \in {"move", "untyped"} => s2 = form[w].s
      /\ form' = [form EXCEPT ![w].f = IF how \in {"untyped", "into"} THEN "untyped" ELSE @,
                              ![w].s = s2]
      /\ Say([c |-> "conv", t |-> t, w |-> w, how |-> how, store |-> s2])
      /\ UNCHANGED <<avars, fin>>

GLeak(t) ==
  \E w \in Pick(W) :
    /\ Mine(t, w)
    /\ kind[w] = "once" \/ Rarely(5)
    /\ ALeak(t, w)
    /\ Say([c |-> "leak", t |-> t, w |-> w])
    /\ Keep

GCall(t) ==
  \E w \in W, x \in (IF Rand THEN Pick(1..9) ELSE {3}) :
    /\ Len(cs[t]) < MaxDepth
    /\ Mine(t, w) \/ w \in Shared
    /\ ACall(t, w)
    /\ Say([c |-> "call", t |-> t, w |-> w, x |-> x])
    /\ Keep

GRet(t) ==
  /\ AReturn(t)
  /\ Say([c |-> "ret", t |-> t])
  /\ Keep

GPanic(t) ==
  /\ Rarely(2)
  /\ AReturn(t)
  /\ Say([c |-> "panic", t |-> t])
  /\ fin' = ~form[ATop(t)[2]].uw
  /\ UNCHANGED form

\* how: at the end of a scope, or because the scope is left by a panic
GDrop(t) ==
  \E w \in W, how \in Pick({"plain", "unwind"}) :
    /\ Len(cs[t]) < MaxDepth
    /\ Mine(t, w)
    /\ Rarely(Linger)
    /\ ADrop(t, w)
    /\ Say([c |-> "drop", t |-> t, w |-> w, how |-> how])
    /\ form' = [form EXCEPT ![w].ud = how = "unwind"]
    /\ UNCHANGED fin

GDRet(t) ==
  /\ ADropped(t)
  /\ Say([c |-> "dret", t |-> t])
  /\ Keep

GDPanic(t) ==
  /\ Rarely(4)
  /\ ADropped(t)
  /\ ~form[ATop(t)[2]].ud
  /\ Say([c |-> "dpanic", t |-> t])
  /\ Keep

\* keeps a simulated program going when nothing else is possible
GNop ==
  /\ Rand
  /\ Say([c |-> "nop", t |-> 1])
  /\ UNCHANGED avars /\ Keep

GNext ==
  /\ ~fin
  /\ Len(h) < MaxLen
  /\ \E t \in T :
       \/ GCtor(t) \/ GBare(t) \/ GConv(t) \/ GLeak(t) \/ GCall(t) \/ GRet(t) \/ GPanic(t)
       \/ GDrop(t) \/ GDRet(t) \/ GDPanic(t) \/ GNop

GSpec == GInit /\ [][GNext]_gvars

Over == fin \/ Len(h) = MaxLen
Emit == Over => PrintT(ToJson(h))
=============================================================================
