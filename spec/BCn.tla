-------------------------------- MODULE BCn --------------------------------
(***************************************************************************)
(* The BC1..BC5 block formats: bit layout, palettes and decoding.          *)
(*                                                                         *)
(* Blocks are sequences of bytes (1-based).  Pixels are numbered 0..15 in  *)
(* row order.  A decoded block is a function 0..15 -> <<r, g, b, a>>.      *)
(* Everything here is executable by TLC on real blocks.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pix == 0..15

Formats == 1..5                    \* n stands for BCn

BlockSize(f) == IF f \in {1, 4} THEN 8 ELSE 16

HasColour(f) == f \in 1..3

\* byte offset of the colour half of a block (formats 1..3)
ColourOff(f) == IF f = 1 THEN 0 ELSE 8

CeilDiv4(n) == (n + 3) \div 4

Pow4 == <<1, 4, 16, 64>>
Pow8 == <<1, 8, 64, 512, 4096, 32768, 262144, 2097152>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Sq(x) == x * x

---------------------------------------------------------------------------
\* 5:6:5 endpoints

Expand5(k) == 8 * k + k \div 4
Expand6(k) == 4 * k + k \div 16

Word(b, off) == b[off + 1] + 256 * b[off + 2]

Grid(v) == <<v \div 2048, (v \div 32) % 64, v % 32>>      \* 5:6:5 fields

ExpandGrid(g) == <<Expand5(g[1]), Expand6(g[2]), Expand5(g[3])>>

\* nearest 5/6-bit level of an 8-bit value (no ties exist)
Quant5(v) == (62 * v + 255) \div 510
Quant6(v) == (126 * v + 255) \div 510
QuantGrid(c) == <<Quant5(c[1]), Quant6(c[2]), Quant5(c[3])>>

---------------------------------------------------------------------------
\* Colour blocks

Color0(b, off) == Word(b, off)
Color1(b, off) == Word(b, off + 2)

ColourIndex(b, off, i) == (b[off + 5 + i \div 4] \div Pow4[1 + (i % 4)]) % 4

\* TRUE: the palette is (c0, c1, half, transparent black)
ThreeColour(b, off, bc1rule) == bc1rule /\ Color0(b, off) <= Color1(b, off)

Third(c, d) == <<(2*c[1] + d[1]) \div 3, (2*c[2] + d[2]) \div 3, (2*c[3] + d[3]) \div 3>>
Half(c, d)  == <<(c[1] + d[1]) \div 2, (c[2] + d[2]) \div 2, (c[3] + d[3]) \div 2>>

Opaque(c) == <<c[1], c[2], c[3], 255>>

\* the four palette entries of a colour block
ColourPalette(b, off, bc1rule) ==
  LET c == ExpandGrid(Grid(Color0(b, off)))
      d == ExpandGrid(Grid(Color1(b, off)))
  IN  IF ThreeColour(b, off, bc1rule)
      THEN <<Opaque(c), Opaque(d), Opaque(Half(c, d)), <<0, 0, 0, 0>>>>
      ELSE <<Opaque(c), Opaque(d), Opaque(Third(c, d)), Opaque(Third(d, c))>>

DecodeColour(b, off, bc1rule) ==
  LET p == ColourPalette(b, off, bc1rule)
  IN  [i \in Pix |-> p[1 + ColourIndex(b, off, i)]]

---------------------------------------------------------------------------
\* Explicit alpha (BC2)

AlphaNibble(b, i) ==
  LET x == b[1 + i \div 2] IN IF i % 2 = 0 THEN x % 16 ELSE x \div 16

DecodeExplicit(b) == [i \in Pix |-> 17 * AlphaNibble(b, i)]

---------------------------------------------------------------------------
\* Interpolated channels (BC3 alpha, BC4, BC5)

Ramp(e0, e1) ==                              \* the eight values, index + 1
  IF e0 > e1
  THEN <<e0, e1>> \o [k \in 1..6 |-> ((7 - k) * e0 + k * e1) \div 7]
  ELSE <<e0, e1>> \o [k \in 1..4 |-> ((5 - k) * e0 + k * e1) \div 5] \o <<0, 255>>

RampIndex(b, off, i) ==
  LET o == off + 2 + 3 * (i \div 8)
      v == b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]
  IN  (v \div Pow8[1 + (i % 8)]) % 8

DecodeRamp(b, off) ==
  LET r == Ramp(b[off + 1], b[off + 2])
  IN  [i \in Pix |-> r[1 + RampIndex(b, off, i)]]

---------------------------------------------------------------------------
\* Whole blocks

Decode(f, b) ==
  CASE f = 1 -> DecodeColour(b, 0, TRUE)
    [] f = 2 -> LET c == DecodeColour(b, 8, FALSE)
                    a == DecodeExplicit(b)
                IN  [i \in Pix |-> <<c[i][1], c[i][2], c[i][3], a[i]>>]
    [] f = 3 -> LET c == DecodeColour(b, 8, FALSE)
                    a == DecodeRamp(b, 0)
                IN  [i \in Pix |-> <<c[i][1], c[i][2], c[i][3], a[i]>>]
    [] f = 4 -> LET r == DecodeRamp(b, 0)
                IN  [i \in Pix |-> <<r[i], r[i], r[i], 255>>]
    [] f = 5 -> LET r == DecodeRamp(b, 0)
                    g == DecodeRamp(b, 8)
                IN  [i \in Pix |-> <<r[i], g[i], 0, 255>>]
=============================================================================
