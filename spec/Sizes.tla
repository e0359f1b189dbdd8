------------------------------- MODULE Sizes --------------------------------
(***************************************************************************)
(* Size arithmetic over unbounded integers (C16), for Apalache: blocks     *)
(* cover the image, none is superfluous, and the one addition the library  *)
(* makes, (n + 3) \div 4, is that count wherever n + 3 can be represented. *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  w,
  \* @type: Int;
  h,
  \* @type: Int;
  x,
  \* @type: Int;
  y,
  \* @type: Int;
  bs

Blocks(n) == (n + 3) \div 4
Wide == Blocks(w)
High == Blocks(h)
Size == Wide * High * bs

Init == /\ w \in Nat /\ h \in Nat /\ x \in Nat /\ y \in Nat /\ bs \in {8, 16}
Next == UNCHANGED <<w, h, x, y, bs>>

\* rounding up
Ceil == /\ 4 * Wide >= w /\ 4 * Wide < w + 4
        /\ (Wide = 0 <=> w = 0)
        /\ Blocks(4 * w) = w /\ Blocks(4 * w + 1) = w + 1
\* every pixel has exactly one block and one place in it
Covers == (x < w /\ y < h) =>
            /\ x \div 4 < Wide /\ y \div 4 < High
            /\ 4 * (x \div 4) + (x % 4) = x
            /\ ((x \div 4) * 4 < w /\ (y \div 4) * 4 < h)
\* every block has a pixel of the image
NotEmpty == (x < Wide /\ y < High) => 4 * x < w /\ 4 * y < h
Inv == Ceil /\ Covers /\ NotEmpty
=============================================================================
