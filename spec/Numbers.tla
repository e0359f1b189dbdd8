------------------------------ MODULE Numbers -------------------------------
(***************************************************************************)
(* Facts about the formats' finite arithmetic on which the obligations of  *)
(* Enc.tla and BCn.tla rest, checked by exhaustion: one state per pair of  *)
(* values, one invariant per fact.                                         *)
(***************************************************************************)
EXTENDS Enc

VARIABLES a, b
vars == <<a, b>>
Init == a \in 0..255 /\ b = 0
Next == b < 255 /\ b' = b + 1 /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Once(F) == b = 0 => F                      \* facts about a alone

Dist(S, v) == MinOf({Abs(x - v) : x \in S})

\* quantisation to 5 and 6 bits is to the nearest level k/31, k/63, and never a tie
NearestLevel(top, v, q) ==
  \A k \in 0..top : k # q => Abs(255 * q - top * v) < Abs(255 * k - top * v)
QuantNearest == Once(NearestLevel(31, a, Quant5(a)) /\ NearestLevel(63, a, Quant6(a)))
\* levels survive expansion and quantisation; expansion is increasing
QuantExpand == Once(/\ a < 32 => Quant5(Expand5(a)) = a
                    /\ a < 64 => Quant6(Expand6(a)) = a
                    /\ a < 31 => Expand5(a) < Expand5(a + 1)
                    /\ a < 63 => Expand6(a) < Expand6(a + 1))
\* an expanded level is within a level of k * 255 / 31 (63)
ExpandExact == Once(/\ a < 32 => Abs(31 * Expand5(a) - 255 * a) < 31
                    /\ a < 64 => Abs(63 * Expand6(a) - 255 * a) < 63)

\* BC2: every value has exactly one nearest multiple of 17, at most 8 away, and it is a
\* fixed point (C06)
ExplicitNearest == Once(
  LET q == (2 * 15 * a + 255) \div 510 IN
  /\ q \in 0..15 /\ Abs(17 * q - a) <= 8
  /\ \A k \in 0..15 : k # q => Abs(17 * k - a) > Abs(17 * q - a))

\* the ramps: ends, range, monotony, extremes (C01, C07)
Ramps ==
  LET r == Ramp(a, b)
      n == IF a > b THEN 8 ELSE 6
      lo == Min2(a, b)  hi == Max2(a, b)
      \* entries in order from a to b
      s == <<r[1]>> \o [k \in 1..(n - 2) |-> r[k + 2]] \o <<r[2]>>
  IN  /\ r[1] = a /\ r[2] = b
      /\ \A k \in 1..n : lo <= s[k] /\ s[k] <= hi
      /\ \A k \in 1..(n - 1) : IF a > b THEN s[k] >= s[k + 1] ELSE s[k] <= s[k + 1]
      /\ a <= b => r[7] = 0 /\ r[8] = 255
      \* an entry is within one level below its exact position
      /\ \A k \in 1..n : LET e == (n - k) * a + (k - 1) * b  d == n - 1
                         IN  d * s[k] <= e /\ e < d * s[k] + d

\* a ramp of at least the widened span leaves no gap of more than a step (C07's references)
Widened ==
  a <= b => LET e == Widen(a, b, 7)  g == Widen(a, b, 5)
            IN  /\ e[1] <= a /\ b <= e[2] /\ e[2] - e[1] >= 7
                /\ g[1] <= a /\ b <= g[2] /\ g[2] - g[1] >= 5
                /\ \A x \in {e, g} : 0 <= x[1] /\ x[2] <= 255
                /\ (b - a >= 7 => e = <<a, b>>) /\ (b - a >= 5 => g = <<a, b>>)
                \* a span of up to 7 (5) is kept exactly
                /\ (b - a <= 7) => NearestIn(Ramp(e[2], e[1]), a) = 0 /\ NearestIn(Ramp(e[2], e[1]), b) = 0
                /\ (b - a <= 5) => NearestIn(Ramp(g[1], g[2]), a) = 0 /\ NearestIn(Ramp(g[1], g[2]), b) = 0

\* interpolated colour entries: between the ends, symmetric up to truncation (C10..C13's slack)
Palettes ==
  LET h == (a + b) \div 2  t == (2 * a + b) \div 3  u == (a + 2 * b) \div 3
      lo == Min2(a, b)  hi == Max2(a, b)
  IN  /\ lo <= h /\ h <= hi /\ lo <= t /\ t <= hi /\ lo <= u /\ u <= hi
      /\ a + b - 2 * h \in {0, 1}
      /\ 2 * a + b - 3 * t \in 0..2 /\ a + 2 * b - 3 * u \in 0..2
      /\ t + u \in {a + b - 1, a + b}
      /\ a = b => h = a /\ t = a /\ u = a

\* integer square roots (C10..C13's tolerance)
Roots == LET n == 256 * a + b  r == ISqrt(n)
         IN  /\ r * r <= n /\ n < (r + 1) * (r + 1)
             /\ LET s == ISqrt(1000003 * (n % 2000)) IN s * s <= 1000003 * (n % 2000) /\ 1000003 * (n % 2000) - s*s <= 2 * s
             /\ LET q == RoundSqrt(n) IN q * (q - 1) < n \/ n = 0

\* the tolerance never rejects what it is meant to admit: sqrt(x) <= sqrt(y) + t*sqrt(3)
Tolerance == \A t4 \in {0, 6, 12} :
  LET x == a * a  y == b * b
  IN  (a <= b \/ 16 * (a - b) * (a - b) <= t4 * t4 * 3) => WithinRoot(x, y, t4, 3)

---------------------------------------------------------------------------
\* bits: pixel i's 3-bit index is bits 3i..3i+2 of the 48-bit word, its 2-bit index bits
\* 2i, 2i+1 of the 32-bit word, its 4-bit alpha bits 4i..4i+3 of the 64-bit word

Bit(bytes, k) == (bytes[k \div 8 + 1] \div Pow2[(k % 8) + 1]) % 2

Bits ==
  LET n == a % 16  v == b
      \* words with two adjacent bytes set and everything else a pattern
      w3 == [k \in 1..8 |-> IF k < 3 THEN (IF k = 1 THEN 200 ELSE 100)
                            ELSE IF (k - 3) % 6 = n % 6 THEN v ELSE IF (k - 3) % 6 = (n + 1) % 6 THEN a ELSE 170]
      w2 == [k \in 1..8 |-> IF k < 5 THEN 0 ELSE IF (k - 5) = n % 4 THEN v ELSE a]
      w4 == [k \in 1..8 |-> IF k = (n % 8) + 1 THEN v ELSE a]
      r == Ramp(200, 100)
  IN  /\ \A i \in Pix : DecodeRamp(w3, 0)[i] =
            r[1 + Bit(w3, 16 + 3*i) + 2 * Bit(w3, 17 + 3*i) + 4 * Bit(w3, 18 + 3*i)]
      /\ \A i \in Pix : ColourIndex(w2, 0, i) = Bit(w2, 32 + 2*i) + 2 * Bit(w2, 33 + 2*i)
      /\ \A i \in Pix : DecodeExplicit(w4)[i] =
            17 * (Bit(w4, 4*i) + 2 * Bit(w4, 4*i + 1) + 4 * Bit(w4, 4*i + 2) + 8 * Bit(w4, 4*i + 3))
=============================================================================
