------------------------------- MODULE BareFn -------------------------------
(***************************************************************************)
(* Lifecycle of closure-ffi wrappers: what the library may do between the  *)
(* start and the end of every public operation.  One action per observable *)
(* step: allocator requests, writes to executable memory, closure bodies   *)
(* and destructors, returns of public operations.  Operations may nest     *)
(* (a closure body or destructor may use the library again) and several    *)
(* threads run at the same time.                                           *)
(*                                                                         *)
(* `Aspects` selects which families of guards are enforced; the model      *)
(* checked exhaustively enforces all of them, trace validation for one     *)
(* property enforces the family that states that property.                 *)
(*   call  routing of calls and closure state            (C02, C13)        *)
(*   clo   destruction of closures, heap storage         (C03)             *)
(*   mem   executable blocks and allocator handles       (C04)             *)
(*   wx    write / protect / flush protocol              (C05)             *)
(*   fail  failed constructions                          (C06)             *)
(*   conv  conversions, moves, leaks                     (C11)             *)
(*   share live wrappers never share executable memory   (C13)             *)
(*   panic panics in closures and destructors            (C14)             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  W,        \* wrapper ids (the closure given to constructor w is closure w)
  T,        \* threads
  B,        \* executable block ids
  A,        \* allocator ids
  Aspects   \* enforced guard families

AllAspects == {"call", "clo", "mem", "wx", "fail", "conv", "share", "panic"}
ASSUME Aspects \subseteq AllAspects

On(x) == x \in Aspects

VARIABLES
  wr,   \* wrappers and their owners
  clo,  \* closure instances
  blk,  \* executable blocks
  stk,  \* per thread: stack of operations in progress
  up    \* the process is running (FALSE: it aborted)

vars == <<wr, clo, blk, stk, up>>

NoW == [st |-> "none", kind |-> "", cap |-> "", uw |-> TRUE, form |-> "", a |-> 0, p |-> 0,
        b |-> 0, heap |-> 0, hnd |-> "none", act |-> 0]
NoC == [st |-> "none", n |-> 0]
NoB == [st |-> "none", a |-> 0, w |-> 0, size |-> 0, mode |-> "none", mlo |-> 0, mhi |-> 0,
        xlo |-> 0, xhi |-> 0, wlo |-> 0, whi |-> 0, flo |-> 0, fhi |-> 0, pub |-> FALSE, alo |-> 0, ahi |-> 0]

Init ==
  /\ wr = [w \in W |-> NoW]
  /\ clo = [w \in W |-> NoC]
  /\ blk = [b \in B |-> NoB]
  /\ stk = [t \in T |-> <<>>]
  /\ up = TRUE

Depth(t) == Len(stk[t])
Top(t) == stk[t][Len(stk[t])]
Push(t, f) == stk' = [stk EXCEPT ![t] = Append(@, f)]
Pop(t) == stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
SetTop(t, f) == stk' = [stk EXCEPT ![t][Len(stk[t])] = f]
InOp(t, k) == Depth(t) > 0 /\ Top(t).k = k

\* fail: memory was refused; ref: the template cannot be relocated; want: how the constructor
\* family reports failure; ph, x, n: progress, argument and state seen by a call; pan: user code
\* in this operation panicked; uw: a drop that happens because its owner's frame is unwinding
Frame(k, w) == [k |-> k, w |-> w, fail |-> FALSE, ref |-> FALSE, want |-> "", ph |-> "begin",
                x |-> 0, n |-> 0, pan |-> FALSE, uw |-> FALSE]

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
\* interval hull; an interval with lo = hi is empty
HullLo(l, h, l2, h2) == IF l = h THEN l2 ELSE IF l2 = h2 THEN l ELSE Min(l, l2)
HullHi(l, h, l2, h2) == IF l = h THEN h2 ELSE IF l2 = h2 THEN h ELSE Max(h, h2)
Covers(l, h, l2, h2) == l2 = h2 \/ (l <= l2 /\ h2 <= h)

Sized(w) == wr[w].cap # "zst"
Owns(w) == wr[w].st \in {"building", "live", "dropping", "leaked"}

\* w owns executable memory that has not been given back
Holds(w) == Owns(w) /\ Sized(w) /\ wr[w].b \in B /\ blk[wr[w].b].st = "held"

\* the result a closure computes from its identity, the calls before and the argument
Result(c, n, x) == c * 10000 + n * 100 + x
PanicCode(c, n, x) == 1000000 + Result(c, n, x)

-----------------------------------------------------------------------------
(* Construction *)

\* calling conventions that permit unwinding
Unwinding == {"Rust", "C-unwind", "system-unwind", "sysv64-unwind", "win64-unwind", "aapcs-unwind", "fastcall-unwind",
              "stdcall-unwind", "cdecl-unwind", "thiscall-unwind"}

\* uw: the calling convention permits unwinding
CtorBegin(t, w, kind, cap, uw, a, ref, want) ==
  /\ wr[w].st = "none"
  /\ wr' = [wr EXCEPT ![w] = [NoW EXCEPT !.st = "building", !.kind = kind, !.cap = cap, !.uw = uw,
                                         !.form = "typed", !.a = a, !.hnd = "held"]]
  /\ clo' = [clo EXCEPT ![w] = [st |-> "held", n |-> 0]]
  /\ Push(t, [Frame("ctor", w) EXCEPT !.ref = ref, !.want = want])
  /\ UNCHANGED blk

\* The allocator is asked for memory and answers.  Zero-sized closures never get here,
\* one block per wrapper, and a refused construction does not ask again.  [lo, hi) is where the
\* block lies (in any order preserving scale): memory in use is never handed out again.
Alloc(t, a, ok, b, size, lo, hi) ==
  /\ On("mem") => InOp(t, "ctor")
  /\ On("mem") => (Sized(Top(t).w) /\ a = wr[Top(t).w].a /\ wr[Top(t).w].b = 0)
  /\ On("fail") => (InOp(t, "ctor") => ~Top(t).fail)
  /\ IF ok
     THEN /\ b \in B
          /\ blk[b].st = "none"
          /\ size > 0
          /\ On("share") => \A b2 \in B : blk[b2].st = "held" => (hi <= blk[b2].alo \/ blk[b2].ahi <= lo)
          /\ blk' = [blk EXCEPT ![b] = [NoB EXCEPT !.st = "held", !.a = a, !.size = size,
                                        !.alo = lo, !.ahi = hi,
                                        !.w = IF InOp(t, "ctor") THEN Top(t).w ELSE 0]]
          /\ wr' = IF InOp(t, "ctor") THEN [wr EXCEPT ![Top(t).w].b = b] ELSE wr
          /\ UNCHANGED stk
     ELSE /\ IF InOp(t, "ctor") THEN SetTop(t, [Top(t) EXCEPT !.fail = TRUE]) ELSE UNCHANGED stk
          /\ UNCHANGED <<wr, blk>>
  /\ UNCHANGED clo

\* A range of block b changes access.  Only the constructor that owns the block does this,
\* only inside the block, and never once the pointer has been handed out.
Protect(t, a, b, lo, hi, acc) ==
  /\ On("wx") => (InOp(t, "ctor") /\ b \in B /\ b = wr[Top(t).w].b /\ blk[b].st = "held"
                  /\ 0 <= lo /\ hi <= blk[b].size /\ ~blk[b].pub /\ a = blk[b].a)
  /\ On("fail") => (InOp(t, "ctor") => ~Top(t).fail)
  /\ IF b \in B
     THEN LET k == blk[b]
              rw == k.mode = "rw"
          IN blk' = [blk EXCEPT ![b] =
               IF acc = "rw"
               THEN [k EXCEPT !.mode = "rw",
                              !.mlo = IF rw THEN HullLo(k.mlo, k.mhi, lo, hi) ELSE lo,
                              !.mhi = IF rw THEN HullHi(k.mlo, k.mhi, lo, hi) ELSE hi,
                              !.xlo = 0, !.xhi = 0]
               ELSE [k EXCEPT !.mode = "rx",
                              !.xlo = HullLo(k.xlo, k.xhi, lo, hi),
                              !.xhi = HullHi(k.xlo, k.xhi, lo, hi)]]
     ELSE UNCHANGED blk
  /\ UNCHANGED <<wr, clo, stk>>

\* Bytes [lo, hi) of block b change.  Allowed only inside a read-write window of the
\* constructor that owns the block.
Write(t, b, lo, hi) ==
  /\ On("wx") => (InOp(t, "ctor") /\ b \in B /\ b = wr[Top(t).w].b /\ blk[b].st = "held" /\ ~blk[b].pub
                  /\ blk[b].mode = "rw" /\ Covers(blk[b].mlo, blk[b].mhi, lo, hi))
  /\ IF b \in B
     THEN blk' = [blk EXCEPT ![b].wlo = HullLo(blk[b].wlo, blk[b].whi, lo, hi),
                             ![b].whi = HullHi(blk[b].wlo, blk[b].whi, lo, hi),
                             ![b].flo = 0, ![b].fhi = 0]
     ELSE UNCHANGED blk
  /\ UNCHANGED <<wr, clo, stk>>

Flush(t, a, b, lo, hi) ==
  /\ On("wx") => (b \in B /\ blk[b].st = "held" /\ 0 <= lo /\ hi <= blk[b].size /\ a = blk[b].a)
  /\ On("fail") => (InOp(t, "ctor") => ~Top(t).fail)
  /\ IF b \in B
     THEN blk' = [blk EXCEPT ![b].flo = HullLo(blk[b].flo, blk[b].fhi, lo, hi),
                             ![b].fhi = HullHi(blk[b].flo, blk[b].fhi, lo, hi)]
     ELSE UNCHANGED blk
  /\ UNCHANGED <<wr, clo, stk>>

\* The block may be executed: read-execute, flushed after the last write, code present.
Ready(b) ==
  LET k == blk[b] IN
    /\ k.st = "held"
    /\ k.wlo < k.whi
    /\ k.mode = "rx"
    /\ Covers(k.xlo, k.xhi, k.wlo, k.whi)
    /\ k.flo < k.fhi /\ Covers(k.flo, k.fhi, k.wlo, k.whi)

\* p: identity of the bare pointer (0: not available in this form), pb: block it points into,
\* po: offset in that block, from where code is fetched
PointerOk(w, p, pb, po) ==
  p # 0 =>
    /\ On("mem") => (IF Sized(w) THEN pb = wr[w].b ELSE pb = 0)
    /\ On("wx") => (Sized(w) => (pb # 0 /\ pb = wr[w].b /\ blk[pb].xlo <= po /\ po < blk[pb].xhi))
    /\ (On("share") /\ Sized(w)) =>
          \A v \in W \ {w} : (Holds(v) /\ wr[v].p # 0) => wr[v].p # p

\* Successful return.  heap: bytes of ordinary heap the wrapper now holds.
CtorOk(t, w, p, pb, po, heap) ==
  /\ InOp(t, "ctor") /\ Top(t).w = w
  /\ On("fail") => (~Top(t).fail /\ ~Top(t).ref)
  /\ On("clo") => clo[w].st = "held"
  /\ On("mem") => (IF Sized(w) THEN wr[w].b # 0 /\ blk[wr[w].b].st = "held" ELSE wr[w].b = 0)
  /\ On("mem") => wr[w].hnd = "held"
  /\ On("wx") => (Sized(w) => Ready(wr[w].b))
  /\ PointerOk(w, p, pb, po)
  /\ wr' = [wr EXCEPT ![w].st = "live", ![w].p = p, ![w].heap = heap]
  /\ blk' = IF wr[w].b \in B THEN [blk EXCEPT ![wr[w].b].pub = TRUE] ELSE blk
  /\ Pop(t)
  /\ UNCHANGED clo

\* The construction did not produce a wrapper; res is what the caller saw.
CtorFail(t, w, res, heap) ==
  /\ InOp(t, "ctor") /\ Top(t).w = w
  /\ On("fail") =>
       \/ Top(t).fail /\ res = Top(t).want
       \/ Top(t).ref /\ res \in {Top(t).want, "panic"}
  /\ (On("fail") \/ On("clo")) => (clo[w].st = "dead" /\ heap = 0)
  /\ (On("fail") \/ On("mem")) =>
        /\ wr[w].hnd = "dropped"
        /\ \A b \in B : blk[b].w = w => blk[b].st # "held"
  /\ wr' = [wr EXCEPT ![w].st = "gone"]
  /\ Pop(t)
  /\ UNCHANGED <<clo, blk>>

-----------------------------------------------------------------------------
(* Closure destructor, block release, handle release: the three effects of ending a wrapper *)

\* the operation in progress that may legitimately destroy closure c
MayDestroy(t, c) ==
  \/ InOp(t, "drop") /\ Top(t).w = c
  \/ InOp(t, "ctor") /\ Top(t).w = c
  \/ InOp(t, "call") /\ Top(t).w = c /\ wr[c].kind = "once" /\ Top(t).ph # "begin"

Destroy(t, c) ==
  /\ On("clo") => (c \in W /\ clo[c].st = "held" /\ MayDestroy(t, c))
  /\ On("conv") => ~InOp(t, "conv")
  /\ On("panic") => (InOp(t, "call") => (c \in W /\ clo[c].st = "held" /\ MayDestroy(t, c)))
  /\ On("fail") => (InOp(t, "ctor") => (c \in W /\ clo[c].st = "held"))
  /\ clo' = IF c \in W THEN [clo EXCEPT ![c].st = "dead"] ELSE clo
  /\ UNCHANGED <<wr, blk, stk>>

\* exact: the pointer is the one the allocator returned; ok: the allocator's answer.  Whatever it
\* answers, the block has been given back and is not given back again.
Release(t, a, b, exact, ok) ==
  /\ On("mem") => (b \in B /\ exact /\ blk[b].st = "held" /\ blk[b].a = a
                   /\ ((InOp(t, "drop") \/ InOp(t, "ctor")) /\ Top(t).w = blk[b].w))
  /\ On("mem") => wr[blk[b].w].hnd = "held"
  /\ On("conv") => ~InOp(t, "conv")
  /\ On("share") => (b \in B => blk[b].st = "held")
  /\ blk' = IF b \in B THEN [blk EXCEPT ![b].st = "freed"] ELSE blk
  /\ UNCHANGED <<wr, clo, stk>>

HandleDrop(t, w) ==
  /\ On("mem") => (w \in W /\ wr[w].hnd = "held" /\ ((InOp(t, "drop") \/ InOp(t, "ctor")) /\ Top(t).w = w))
  /\ On("mem") => ~(wr[w].b \in B /\ blk[wr[w].b].st = "held")
  /\ On("conv") => ~InOp(t, "conv")
  /\ wr' = IF w \in W THEN [wr EXCEPT ![w].hnd = "dropped"] ELSE wr
  /\ UNCHANGED <<clo, blk, stk>>

-----------------------------------------------------------------------------
(* Using a wrapper *)

\* ownership: a wrapper being converted is not available to anybody else
Moving(w) == \E t \in T : \E i \in 1..Len(stk[t]) : stk[t][i].k = "conv" /\ stk[t][i].w = w

Bare(t, w, p, pb, po) ==
  /\ wr[w].st = "live" /\ ~Moving(w)
  /\ On("conv") => (wr[w].p # 0 => p = wr[w].p)
  /\ PointerOk(w, p, pb, po)
  /\ wr' = [wr EXCEPT ![w].p = p]
  /\ UNCHANGED <<clo, blk, stk>>

\* how: move | untyped | into | upcast; form: the form afterwards
ConvBegin(t, w) ==
  /\ wr[w].st = "live" /\ ~Moving(w)
  /\ Push(t, Frame("conv", w))
  /\ UNCHANGED <<wr, clo, blk>>

ConvEnd(t, w, form, p, pb, po, heap) ==
  /\ InOp(t, "conv") /\ Top(t).w = w
  /\ On("conv") => (wr[w].p # 0 => p = wr[w].p)
  /\ PointerOk(w, p, pb, po)
  /\ wr' = [wr EXCEPT ![w].form = form, ![w].p = p, ![w].heap = @ + heap]
  /\ Pop(t)
  /\ UNCHANGED <<clo, blk>>

\* leaking: the pointer stays valid for ever, nothing is given back
LeakEnd(t, w, p, pb, po) ==
  /\ InOp(t, "conv") /\ Top(t).w = w
  /\ On("conv") => (wr[w].p # 0 => p = wr[w].p)
  /\ p # 0
  /\ PointerOk(w, p, pb, po)
  /\ wr' = [wr EXCEPT ![w].st = "leaked", ![w].p = p]
  /\ Pop(t)
  /\ UNCHANGED <<clo, blk>>

Callable(w) ==
  /\ \/ wr[w].st = "live" /\ wr[w].kind # "once"
     \/ wr[w].st = "leaked"
  /\ wr[w].kind = "once" => clo[w].n = 0
  /\ wr[w].kind # "fn" => wr[w].act = 0

CallBegin(t, w, p, x) ==
  /\ Callable(w)
  /\ wr[w].p = p
  /\ wr' = [wr EXCEPT ![w].act = @ + 1]
  /\ Push(t, [Frame("call", w) EXCEPT !.x = x])
  /\ UNCHANGED <<clo, blk>>

\* the body of closure c starts, sees argument x and finds n earlier calls recorded in its state
Body(t, c, x, n) ==
  /\ InOp(t, "call")
  /\ On("call") =>
       (/\ Top(t).ph = "begin"
        /\ c = Top(t).w /\ x = Top(t).x
        /\ clo[c].st = "held"
        /\ n = clo[c].n)
  /\ SetTop(t, [Top(t) EXCEPT !.ph = "body", !.n = n])
  /\ clo' = IF c \in W THEN [clo EXCEPT ![c].n = @ + 1] ELSE clo
  /\ UNCHANGED <<wr, blk>>

\* the by-value argument is destroyed, exactly once, inside the call
TokenDrop(t, x) ==
  /\ (On("panic") \/ On("call")) => (InOp(t, "call") /\ Top(t).ph = "body" /\ x = Top(t).x)
  /\ IF InOp(t, "call") THEN SetTop(t, [Top(t) EXCEPT !.ph = "used"]) ELSE UNCHANGED stk
  /\ UNCHANGED <<wr, clo, blk>>

\* user code panics, in a closure body or a closure destructor
Throw(t) ==
  /\ InOp(t, "call") \/ (InOp(t, "drop") /\ ~Top(t).uw)   \* two panics at once: no program does this
  /\ SetTop(t, [Top(t) EXCEPT !.pan = TRUE])
  /\ UNCHANGED <<wr, clo, blk>>

\* the call returns r, or (pan) unwinds with payload r
CallEnd(t, w, r, pan) ==
  /\ InOp(t, "call") /\ Top(t).w = w
  /\ On("call") => (Top(t).ph = "used" /\ (~Top(t).pan => (~pan /\ r = Result(w, Top(t).n, Top(t).x))))
  /\ On("panic") =>
       (/\ Top(t).ph = "used"
        /\ pan = Top(t).pan
        /\ pan => wr[w].uw
        /\ pan => r = PanicCode(w, Top(t).n, Top(t).x)
        /\ (pan /\ wr[w].kind = "once") => clo[w].st = "dead")
  /\ On("clo") => (wr[w].kind = "once" => clo[w].st = "dead")
  /\ wr' = [wr EXCEPT ![w].act = @ - 1]
  /\ Pop(t)
  /\ UNCHANGED <<clo, blk>>

\* A panic that may not leave its closure ends the process instead.
Abort(t) ==
  /\ On("panic") => (InOp(t, "call") /\ Top(t).pan /\ Top(t).ph # "begin" /\ ~wr[Top(t).w].uw)
  /\ up' = FALSE
  /\ UNCHANGED <<wr, clo, blk, stk>>

-----------------------------------------------------------------------------
(* Dropping a wrapper *)

\* uw: the wrapper goes because the frame that owns it unwinds; that changes nothing
DropBegin(t, w, uw) ==
  /\ wr[w].st = "live" /\ wr[w].act = 0 /\ ~Moving(w)
  /\ wr' = [wr EXCEPT ![w].st = "dropping"]
  /\ Push(t, [Frame("drop", w) EXCEPT !.uw = uw])
  /\ UNCHANGED <<clo, blk>>

\* pan: the drop unwound
DropEnd(t, w, pan, heap) ==
  /\ InOp(t, "drop") /\ Top(t).w = w
  /\ On("clo") => (clo[w].st = "dead" /\ wr[w].heap + heap = 0)
  /\ On("mem") => (wr[w].hnd = "dropped"
                   /\ (wr[w].b \in B => blk[wr[w].b].st = "freed"))
  /\ On("panic") => (pan = Top(t).pan
                     /\ ((pan \/ Top(t).uw) => (wr[w].b \in B => blk[wr[w].b].st = "freed") /\ clo[w].st = "dead"))
  /\ wr' = [wr EXCEPT ![w].st = "gone"]
  /\ Pop(t)
  /\ UNCHANGED <<clo, blk>>

-----------------------------------------------------------------------------
(* Properties *)

TypeOK ==
  /\ \A w \in W : wr[w].st \in {"none", "building", "live", "dropping", "leaked", "gone"}
  /\ \A w \in W : clo[w].st \in {"none", "held", "dead"}
  /\ \A b \in B : blk[b].st \in {"none", "held", "freed"}

\* C03: a closure is alive as long as its wrapper is, dead once the wrapper is gone
ClosureAlive ==
  \A w \in W :
    /\ wr[w].st = "live" => clo[w].st = "held"
    /\ wr[w].st = "gone" => clo[w].st = "dead"
    /\ wr[w].st = "leaked" => (clo[w].st = "dead" => wr[w].kind = "once" /\ clo[w].n = 1)

\* C04: blocks are held exactly by building/live/dropping/leaked wrappers of sized closures
BlocksAccounted ==
  /\ \A b \in B : blk[b].st = "held" => Owns(blk[b].w) /\ wr[blk[b].w].b = b
  /\ \A w \in W : (wr[w].st \in {"live", "leaked"} /\ Sized(w)) =>
        (wr[w].b \in B /\ blk[wr[w].b].st = "held" /\ blk[wr[w].b].a = wr[w].a)
  /\ \A w \in W : (wr[w].cap = "zst") => wr[w].b = 0
  /\ \A w \in W : wr[w].st = "gone" => wr[w].hnd = "dropped"
  /\ \A w \in W : wr[w].st \in {"live", "leaked"} => wr[w].hnd = "held"

\* C05: published code is complete, executable, flushed; never writable and published
PublishedReady ==
  \A b \in B : (blk[b].pub /\ blk[b].st = "held") => Ready(b)

\* C02/C13: distinct live wrappers of sized closures have distinct pointers and blocks
NoSharing ==
  \A v, w \in W :
    (v # w /\ Holds(v) /\ Holds(w)) =>
      /\ wr[v].b # wr[w].b
      /\ (blk[wr[v].b].ahi <= blk[wr[w].b].alo \/ blk[wr[w].b].ahi <= blk[wr[v].b].alo)
      /\ ((wr[v].p # 0 /\ wr[w].p # 0) => wr[v].p # wr[w].p)

\* C06: nothing is left of a failed construction
FailedLeavesNothing ==
  \A w \in W : wr[w].st = "gone" => \A b \in B : blk[b].w = w => blk[b].st = "freed"

\* a closure only runs while it is alive, on behalf of its own pointer
RunningAlive ==
  \A t \in T : \A i \in 1..Len(stk[t]) :
    LET f == stk[t][i] IN
      f.k = "call" => wr[f.w].st \in {"live", "leaked"}

Inv == TypeOK /\ ClosureAlive /\ BlocksAccounted /\ PublishedReady /\ NoSharing
       /\ FailedLeavesNothing /\ RunningAlive

\* C11: an operation that only converts changes neither closures nor blocks
ConvertsTouchNothing ==
  [][\A w \in W :
       (wr[w].st = "live" /\ wr'[w].st \in {"live", "leaked"} /\ wr[w].form # wr'[w].form)
          => (clo'[w] = clo[w] /\ blk' = blk /\ (wr[w].p # 0 => wr'[w].p = wr[w].p))]_vars

\* C02: a closure's state advances only by a call through its own pointer, once per call
RunsOwn ==
  [][\A c \in W : (clo'[c].n # clo[c].n) =>
        /\ clo'[c].n = clo[c].n + 1
        /\ \E t \in T : InOp(t, "call") /\ Top(t).w = c /\ Top(t).ph = "begin"]_vars

\* C06: after a refusal the attempt touches no executable memory and yields no wrapper
RefusalIsFinal ==
  [][\A t \in T : (InOp(t, "ctor") /\ Top(t).fail) =>
        /\ wr'[Top(t).w].st \in {"building", "gone"}
        /\ \A b \in B : blk'[b].w = Top(t).w => blk'[b] = blk[b]]_vars
RefusedNeverLive ==
  [][\A t \in T : (InOp(t, "ctor") /\ Top(t).ref) => wr'[Top(t).w].st # "live"]_vars

\* C14: a panic that may not unwind never leaves the call; only such panics end the process
PanicContained ==
  [][\A t \in T : (InOp(t, "call") /\ Top(t).pan /\ ~wr[Top(t).w].uw) =>
        Len(stk'[t]) >= Len(stk[t])]_vars
AbortJustified ==
  [][(up /\ ~up') => \E t \in T : InOp(t, "call") /\ Top(t).pan /\ ~wr[Top(t).w].uw]_vars

\* destruction is final
DeadStaysDead == [][\A w \in W : clo[w].st = "dead" => clo'[w].st = "dead"]_vars
=============================================================================
