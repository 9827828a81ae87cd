------------------------------ MODULE BareFnMC ------------------------------
(***************************************************************************)
(* Exhaustive model: programs (environment) x everything BareFn lets the   *)
(* library do in between.  Every parameter of every action is chosen       *)
(* freely from a small set, so a guard family that is switched off         *)
(* (Aspects) lets the library misbehave and the matching invariant must    *)
(* fail: the driver checks that too (see tools/lifecycle.py, vacuity).     *)
(***************************************************************************)
EXTENDS BareFn, TLC

CONSTANTS Kinds, Caps, Uws, Refs, Uwd, MaxDepth, MaxCalls, Wild

Sym == Permutations(B) \cup Permutations(A)

\* pointer identities: sized closures get the block's, zero-sized their own
PtrOf(w) == IF Sized(w) THEN 100 + wr[w].b ELSE w
Ptrs(w) == IF Wild THEN {PtrOf(w), 101} ELSE {PtrOf(w)}
Heaps(w) == IF wr[w].cap = "zst" THEN {0} ELSE {1}

Env(t) ==
  /\ Depth(t) < MaxDepth
  /\ Depth(t) = 0 \/ (InOp(t, "call") /\ Top(t).ph = "body") \/ (InOp(t, "drop") /\ clo[Top(t).w].st = "dead")
  /\ \/ \E w \in W, k \in Kinds, c \in Caps, u \in Uws, a \in A, r \in Refs :
          /\ \A v \in W : v < w => wr[v].st # "none"
          /\ (~u => k = "fn")
          /\ (r => c # "zst")
          /\ CtorBegin(t, w, k, c, u, a, r, "err")
     \/ \E w \in W : ConvBegin(t, w)
     \/ \E w \in W : clo[w].n < MaxCalls /\ CallBegin(t, w, wr[w].p, 1)
     \/ \E w \in W : Bare(t, w, PtrOf(w), wr[w].b, 0)
     \/ \E w \in W, uw \in Uwd : DropBegin(t, w, uw)
     \/ Depth(t) > 0 /\ ~Top(t).pan /\ Throw(t)

Target(t) == IF Depth(t) > 0 THEN {Top(t).w} ELSE {}
Lib(t) ==
  \/ /\ InOp(t, "ctor")
     /\ \/ \E b \in B, a \in IF Wild THEN A ELSE {wr[Top(t).w].a}, ok \in BOOLEAN,
              at \in IF Wild THEN {1, 2} ELSE {0} :
              LET lo == 2 * (IF at = 0 THEN b ELSE at) IN Alloc(t, a, ok, b, 2, lo, lo + 2)
        \/ \E b \in B : b = wr[Top(t).w].b /\
             \/ \E acc \in {"rw", "rx"} : Protect(t, blk[b].a, b, 0, 2, acc)
             \/ \E r \in {<<0, 1>>, <<1, 2>>} : Write(t, b, r[1], r[2])
             \/ \E r \in {<<0, 1>>, <<0, 2>>} : Flush(t, blk[b].a, b, r[1], r[2])
        \/ \E w \in Target(t) : \E p \in Ptrs(w), h \in Heaps(w) : CtorOk(t, w, p, wr[w].b, 0, h)
        \/ \E w \in Target(t), h \in {0} \cup (IF Wild THEN {1} ELSE {}) :
             \E res \in {"err", "panic"} : CtorFail(t, w, res, h)
  \/ /\ InOp(t, "ctor") \/ InOp(t, "drop") \/ InOp(t, "call") \/ (Wild /\ InOp(t, "conv"))
     /\ \/ \E c \in W : clo[c].st # "none" /\ (Wild \/ c \in Target(t)) /\ Destroy(t, c)
        \/ \E b \in B : blk[b].st # "none" /\ (\E ok \in BOOLEAN : Release(t, blk[b].a, b, TRUE, ok))
        \/ \E w \in W : wr[w].hnd # "none" /\ (Wild \/ w \in Target(t)) /\ HandleDrop(t, w)
  \/ /\ InOp(t, "conv")
     /\ \/ \E p \in Ptrs(Top(t).w) : ConvEnd(t, Top(t).w, "untyped", p, wr[Top(t).w].b, 0, 0)
        \/ \E p \in Ptrs(Top(t).w) : LeakEnd(t, Top(t).w, p, wr[Top(t).w].b, 0)
  \/ /\ InOp(t, "call")
     /\ \/ \E c \in W : clo[c].st # "none" /\ Body(t, c, 1, clo[c].n)
        \/ TokenDrop(t, 1)
        \/ \E pan \in BOOLEAN :
             \E r \in {Result(Top(t).w, Top(t).n, Top(t).x), PanicCode(Top(t).w, Top(t).n, Top(t).x)} :
               CallEnd(t, Top(t).w, r, pan)
  \/ /\ InOp(t, "drop")
     /\ \E pan \in BOOLEAN : DropEnd(t, Top(t).w, pan, 0 - wr[Top(t).w].heap)

Next ==
  /\ up
  /\ \/ \E t \in T : (Env(t) \/ Lib(t)) /\ UNCHANGED up
     \/ \E t \in T : Abort(t)

Spec == Init /\ [][Next]_vars

\* every started operation can be finished, whatever happened so far
CanFinish == \A t \in T : (up /\ Depth(t) > 0) => ENABLED (Lib(t) /\ UNCHANGED up)

-----------------------------------------------------------------------------
(* refinement of the command level *)
RECURSIVE Frames(_)
Frames(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET f == Head(s) IN
         (IF f.k \in {"call", "drop"} THEN <<<<f.k, f.w>>>> ELSE <<>>) \o Frames(Tail(s))

Cmd == INSTANCE Api WITH
  st <- [w \in W |-> IF wr[w].st = "building" THEN "none" ELSE wr[w].st],
  kind <- [w \in W |-> IF wr[w].st = "building" THEN "" ELSE wr[w].kind],
  used <- [w \in W |-> clo[w].n > 0 \/ wr[w].act > 0],
  cs <- [t \in T |-> Frames(stk[t])]

RefinesApi == Cmd!ASpec
CmdInv == Cmd!NoUseAfterDrop
=============================================================================
