------------------------------- MODULE Place -------------------------------
(***************************************************************************)
(* Where emitted code lands in the block an allocator returned.            *)
(*                                                                         *)
(* The code (len bytes, its aligned data at offset mo) is copied into a    *)
(* block of `asked` bytes with an executable view at rx and a writable     *)
(* view at rw; both are only known modulo 16.  The code starts `skip`      *)
(* bytes into the block.  Literal loads round the program counter down to  *)
(* a multiple of Round (1 where the processor does not), so their encoded  *)
(* distance is right only if it was computed for the address, modulo       *)
(* Round, at which the code ends up.                                       *)
(*                                                                         *)
(* The module is used twice: TLC checks Fits, Aligned and Literals over    *)
(* all small blocks (Fault: must be refuted), and PlaceGen enumerates the  *)
(* placements that real code is then run at.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
  Align,      \* alignment of the data inside the code
  Round,      \* 4 on Thumb, 1 elsewhere
  MaxLen,
  Fault,      \* "none" | "tight" | "writable" | "template"
  Show       \* enumerate placements for the replay

VARIABLES rx, rw, len, mo, at, tmpl

vars == <<rx, rw, len, mo, at, tmpl>>

Up(x, a) == (a - (x % a)) % a         \* bytes up to the next multiple

Init ==
  /\ rx \in 0..15 /\ rw \in 0..15
  /\ len \in 1..MaxLen /\ mo \in 0..(len - 1)
  /\ at \in 0..mo                     \* a literal load in the code
  /\ tmpl \in 0..15                   \* address of the template
  /\ at % 2 = 0 /\ mo % 2 = 0 /\ (Round = 4 => rx % 2 = 0 /\ tmpl % 2 = 0)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

asked == IF Fault = "tight" THEN len ELSE len + Align - 1
skip == IF Fault = "writable" THEN Up(rw + mo, Align) ELSE Up(rx + mo, Align)
final == rx + skip

Fits == skip + len <= asked
Aligned == (final + mo) % Align = 0

\* distance encoded for a load at offset `at` of data at offset mo, computed for code at address `a`
Down(x) == x - (x % Round)
Distance(a) == (a + mo) - Down(a + at + 4)
\* the code is aligned by its data: that fixes its address modulo Align
Planned == IF Fault = "template" THEN tmpl ELSE Up(mo, Align)
Literals == Align % Round = 0 => Down(final + at + 4) + Distance(Planned) = final + mo

-----------------------------------------------------------------------------
\* placements: kind of block, executable and writable address modulo 16, previous contents, template address
Kinds == {"near", "system", "far", "views", "staged"}
GInit ==
  /\ rx \in 0..15 /\ tmpl \in 0..15 /\ len \in 0..3 /\ mo \in Kinds /\ at = 0
  /\ rw \in IF mo = "staged" THEN 0..15 ELSE {rx}
GSpec == GInit /\ [][Next]_vars
Emit == Show => PrintT(ToJson([kind |-> mo, rx |-> rx, rw |-> rw, fill |-> len, tmpl |-> tmpl]))
=============================================================================
