-------------------------------- MODULE Enc --------------------------------
(***************************************************************************)
(* What an encoded block owes the pixels it was made from.                 *)
(*                                                                         *)
(* An encoding call c is a record                                          *)
(*   f  format 1..5             g   0 range, 1 cluster, 2 iterative        *)
(*   w  channel weights (small integers, <<wr, wg, wb>>)                   *)
(*   aw 1 iff colour is weighed by alpha                                   *)
(*   m  mask of valid pixels (16 bits)                                     *)
(*   px 64 bytes, RGBA of pixels 0..15                                     *)
(*   b  the encoded bytes       o   the library's own decoding (64 bytes)  *)
(*                                                                         *)
(* The encoders work in floating point; where they do, the obligation is   *)
(* an inequality with the rounding it tolerates written out.  All numbers  *)
(* fit TLC's 32-bit integers; the comments give the worst case.            *)
(***************************************************************************)
EXTENDS BCn, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>

InMask(c, i) == (c.m \div Pow2[i + 1]) % 2 = 1
MaskSet(c) == {i \in Pix : InMask(c, i)}

Rgb(c, i) == <<c.px[4*i + 1], c.px[4*i + 2], c.px[4*i + 3]>>
Alpha(c, i) == c.px[4*i + 4]

\* BC1's alpha threshold
Transparent(c, i) == c.f = 1 /\ Alpha(c, i) < 128
HasTransparent(c) == \E i \in MaskSet(c) : Transparent(c, i)

\* pixels whose colour the block has to represent
Vis(c) == {i \in MaskSet(c) : ~Transparent(c, i)}

Colours(c) == {Rgb(c, i) : i \in Vis(c)}

\* decodings: by the specification and by the library
SpecDec(c) == Decode(c.f, c.b)
Texels(o) == [i \in Pix |-> <<o[4*i+1], o[4*i+2], o[4*i+3], o[4*i+4]>>]
LibDec(c) == Texels(c.o)

SumOver(S, F(_)) == MapThenSumSet(F, S)
SumTo(n, F(_)) == MapThenSumSet(F, 1..n)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) ==                      \* largest r in lo..hi with r^2 <= n
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF mid * mid <= n THEN ISqrtIn(n, mid, hi) ELSE ISqrtIn(n, lo, mid - 1)
ISqrt(n) == ISqrtIn(n, 0, 46340)

---------------------------------------------------------------------------
\* C05: BC1 keeps the transparency mask

KeepsMask(c, d) ==
  \A i \in MaskSet(c) :
    IF Alpha(c, i) < 128 THEN d[i] = <<0, 0, 0, 0>> ELSE d[i][4] = 255

---------------------------------------------------------------------------
\* C06: nearest of the sixteen alpha levels (multiples of 17, so 8 away at most)

NearestExplicit(c, d) ==
  \A i \in MaskSet(c) : d[i][4] % 17 = 0 /\ Abs(d[i][4] - Alpha(c, i)) <= 8

---------------------------------------------------------------------------
\* C07: interpolated channels.  Streams: <<byte offset, channel 1..4>>

Streams(f) == CASE f = 3 -> {<<0, 4>>} [] f = 4 -> {<<0, 1>>}
                [] f = 5 -> {<<0, 1>>, <<8, 2>>} [] OTHER -> {}

Chan(c, i, ch) == c.px[4*i + ch]

NearestIn(r, v) == MinOf({Abs(r[k] - v) : k \in 1..8})

Widen(lo, hi, steps) ==
  IF hi - lo >= steps THEN <<lo, hi>>
  ELSE LET h == Min2(lo + steps, 255)
       IN  IF h - lo >= steps THEN <<lo, h>> ELSE <<Max2(h - steps, 0), h>>

\* the two reference ramps for a non-empty set V of values
Ramp7(V) == LET e == Widen(MinOf(V), MaxOf(V), 7) IN Ramp(e[2], e[1])
Ramp5(V) ==
  LET lo == V \ {0}  hi == V \ {255}
      l0 == IF lo = {} THEN 255 ELSE MinOf(lo)
      h0 == IF hi = {} THEN 0 ELSE MaxOf(hi)
      e  == Widen(IF l0 > h0 THEN h0 ELSE l0, h0, 5)
  IN  Ramp(e[1], e[2])

RampError(c, ch, r) == SumOver(MaskSet(c), LAMBDA i : Sq(NearestIn(r, Chan(c, i, ch))))

StreamNearest(c, s, d) ==
  LET r == TLCEval(Ramp(c.b[s[1] + 1], c.b[s[1] + 2]))
  IN  \A i \in MaskSet(c) :
        Abs(d[i][s[2]] - Chan(c, i, s[2])) = NearestIn(r, Chan(c, i, s[2]))

StreamBest(c, s, d) ==
  LET V == {Chan(c, i, s[2]) : i \in MaskSet(c)}
      err == SumOver(MaskSet(c), LAMBDA i : Sq(d[i][s[2]] - Chan(c, i, s[2])))
  IN  V # {} => /\ err <= RampError(c, s[2], TLCEval(Ramp7(V)))
                /\ err <= RampError(c, s[2], TLCEval(Ramp5(V)))

---------------------------------------------------------------------------
\* C22: equal pixels stay equal, and values keep their order and follow their pixels

\* channels coded on their own
Single(f) == CASE f = 2 -> {4} [] OTHER -> {s[2] : s \in Streams(f)}

EqualStayEqual(c, d) ==
  c.f <= 3 => \A i, j \in Vis(c) : Rgb(c, i) = Rgb(c, j) => \A k \in 1..3 : d[i][k] = d[j][k]

KeepsOrder(c, d) ==
  \A ch \in Single(c.f) : \A i, j \in MaskSet(c) :
    Chan(c, i, ch) <= Chan(c, j, ch) => d[i][ch] <= d[j][ch]

\* b is a with pixel perm[n] of a in place n
Rearranged(a, b, perm) ==
  /\ a.f = b.f /\ {perm[n] : n \in 1..16} = Pix
  /\ \A i \in Pix : /\ InMask(b, i) <=> InMask(a, perm[i + 1])
                    /\ InMask(b, i) => \A ch \in Single(a.f) : Chan(b, i, ch) = Chan(a, perm[i + 1], ch)
FollowsPixels(a, b, perm, da, db) ==
  \A ch \in Single(a.f) : \A i \in MaskSet(b) : db[i][ch] = da[perm[i + 1]][ch]

---------------------------------------------------------------------------
\* C24: what has been through the codec once goes through unchanged.
\* d: the first decoding, e: that of its second encoding

Unchanged(c, d, e) ==
  /\ \A ch \in Single(c.f) : \A i \in MaskSet(c) : e[i][ch] = d[i][ch]
  /\ (c.f <= 3 /\ Cardinality(Colours(c)) = 1) =>
       \A i \in Vis(c) : \A k \in 1..3 : e[i][k] = d[i][k]

---------------------------------------------------------------------------
\* C14: mode safety

ModeSafe(c) ==
  c.f \in {2, 3} =>
    LET p == DecodeColour(c.b, 8, FALSE)
        q == DecodeColour(c.b, 8, TRUE)
    IN  \A i \in MaskSet(c) : p[i] = q[i]

NeverTransparent(c, d) ==
  (c.f = 1 /\ ~HasTransparent(c)) => \A i \in MaskSet(c) : d[i][4] = 255

---------------------------------------------------------------------------
\* C09: uniform blocks.  the least |error| of a value over all
\* endpoint pairs, for kind 1 = an endpoint, 2 = an interpolated entry.

Levels(bits) == IF bits = 5 THEN 0..31 ELSE 0..63
Expand(bits, k) == IF bits = 5 THEN Expand5(k) ELSE Expand6(k)

Reach(mode, bits, kind) ==
  IF kind = 1 THEN {Expand(bits, k) : k \in Levels(bits)}
  ELSE IF mode = 3
       THEN {(Expand(bits, k) + Expand(bits, l)) \div 2 : k, l \in Levels(bits)}
       ELSE {(2 * Expand(bits, k) + Expand(bits, l)) \div 3 : k, l \in Levels(bits)}

\* T[mode-2][bits-4][kind][v+1]; the table is evaluated once, by Tables.tla
LeastError(mode, bits, kind) ==
  LET R == TLCEval(Reach(mode, bits, kind))
  IN  TLCEval([n \in 1..256 |->
        LET v == n - 1 IN
        CHOOSE k \in 0..255 :
          /\ (v + k) \in R \/ (v - k) \in R
          /\ \A j \in 0..(k - 1) : (v + j) \notin R /\ (v - j) \notin R])

UniformBest(T, mode, v) ==
  MinOf({Sq(T[mode-2][1][k][v[1]+1]) + Sq(T[mode-2][2][k][v[2]+1])
                                     + Sq(T[mode-2][1][k][v[3]+1]) : k \in {1, 2}})

RgbErr(v, d) == Sq(v[1] - d[1]) + Sq(v[2] - d[2]) + Sq(v[3] - d[3])

UniformOptimal(T, c, d) ==
  LET v == CHOOSE v \in Colours(c) : TRUE
      best == IF c.f # 1 THEN UniformBest(T, 4, v)
              ELSE IF HasTransparent(c) THEN UniformBest(T, 3, v)
              ELSE Min2(UniformBest(T, 3, v), UniformBest(T, 4, v))
  IN  /\ \A i, j \in Vis(c) : d[i] = d[j] \/ c.f # 1
      /\ \A i \in Vis(c) : RgbErr(v, d[i]) = best
      /\ \A i, j \in Vis(c) : \A k \in 1..3 : d[i][k] = d[j][k]

---------------------------------------------------------------------------
\* Weighted distances between a colour and a decoded texel

\* cluster fit's metric; weights <= 100: 100 * 3 * 255^2 = 2.0e7
WD(w, v, d) == w[1]*Sq(v[1]-d[1]) + w[2]*Sq(v[2]-d[2]) + w[3]*Sq(v[3]-d[3])
\* range fit's metric; weights <= 100: 1.95e9
WD2(w, v, d) == WD(<<w[1]*w[1], w[2]*w[2], w[3]*w[3]>>, v, d)

\* a <= (sqrt(b) + t*sqrt(n))^2, rounded in favour of TRUE.  t in quarter levels.
WithinRoot(a, b, t4, n) ==
  a <= b \/ ISqrt(a) <= ISqrt(b) + 1 + (t4 * (ISqrt(16 * n) + 1)) \div 16 + 1

---------------------------------------------------------------------------
\* C10: two colours survive.  Weights <= 20.

TwoColour(c, d) ==
  \A i \in Vis(c) :
    LET v == Rgb(c, i)
        u == CHOOSE x \in Colours(c) : x # v
        qv == ExpandGrid(QuantGrid(v))
        qu == ExpandGrid(QuantGrid(u))
    IN  IF c.g = 0
        THEN WithinRoot(WD2(c.w, v, d[i]), WD2(c.w, v, qv), 12,
                        Sq(c.w[1]) + Sq(c.w[2]) + Sq(c.w[3]))
        ELSE WithinRoot(WD(c.w, v, d[i]), WD(c.w, v, qv) + 4 * WD(c.w, u, qu), 12,
                        c.w[1] + c.w[2] + c.w[3])

---------------------------------------------------------------------------
\* A colour's weight is SC * sqrt(number of its pixels), or of the sum of (alpha+1)/256,
\* rounded to the nearest integer: the sum of all is <= 16 * SC = 1280.

SC == 80

RoundSqrt(n) == LET r == ISqrt(n) IN IF n - r*r > r THEN r + 1 ELSE r

ColourWeight(c, v) ==
  LET S == {i \in Vis(c) : Rgb(c, i) = v}
  IN  IF c.aw = 1 THEN RoundSqrt((25 * SumOver(S, LAMBDA i : Alpha(c, i) + 1)))
                  ELSE RoundSqrt(SC * SC * Cardinality(S))

---------------------------------------------------------------------------
\* Lines in RGB space and axes

Sub(p, q) == <<p[1]-q[1], p[2]-q[2], p[3]-q[3]>>
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Parallel(p, q) == /\ p[1]*q[2] = p[2]*q[1] /\ p[2]*q[3] = p[3]*q[2] /\ p[1]*q[3] = p[3]*q[1]

Far(S, p) == CHOOSE q \in S : \A x \in S : LET d == Sub(q, p)  e == Sub(x, p) IN Dot(d, d) >= Dot(e, e)
\* two colours far apart
Origin(S) == Far(S, CHOOSE p \in S : TRUE)
Direction(S) == Sub(Far(S, Origin(S)), Origin(S))
Collinear(S) == LET p == CHOOSE p \in S : TRUE
                    e == Direction(S)
                IN  \A q \in S : Parallel(Sub(q, p), e)

\* The principal axis of a block's distinct colours with their weights, where it is unambiguous.
\*
\* In integers: the colours relative to their mean in quarter levels, the covariance scaled down
\* to entries of 4096, and twelve steps of power iteration from the row with the greatest
\* variance, which has a component along the axis if that holds most of all variance.
\* 1280 * 1020^2 = 1.3e9;  3 * 4096 * 8192 = 1.0e8;  3 * 128 * 3 * 4096 * 128 = 6.0e8
RoundDiv(a, b) == (2 * a + b) \div (2 * b)         \* b > 0

Apply(M, v) == TLCEval([k \in 1..3 |-> M[k][1]*v[1] + M[k][2]*v[2] + M[k][3]*v[3]])
RECURSIVE PowerIteration(_, _, _)
PowerIteration(M, v, n) ==
  IF n = 0 THEN v
  ELSE LET w == Apply(M, v)
           q == MaxOf({Abs(w[k]) : k \in 1..3}) \div 8192 + 1
       IN  PowerIteration(M, TLCEval([k \in 1..3 |-> RoundDiv(w[k], q)]), n - 1)

Principal(S, s(_)) ==
  LET ws == SumOver(S, s)
      m == TLCEval([k \in 1..3 |-> RoundDiv(4 * SumOver(S, LAMBDA v : s(v) * v[k]), ws)])
      C == TLCEval([k \in 1..3 |-> TLCEval([l \in 1..3 |->
             SumOver(S, LAMBDA v : s(v) * (4 * v[k] - m[k]) * (4 * v[l] - m[l]))])])
      q == MaxOf({C[k][k] : k \in 1..3}) \div 4096 + 1
      M == TLCEval([k \in 1..3 |-> TLCEval([l \in 1..3 |-> RoundDiv(C[k][l], q)])])
      top == CHOOSE k \in 1..3 : \A l \in 1..3 : M[k][k] >= M[l][l]
      v == TLCEval(PowerIteration(M, M[top], 12))
      u == TLCEval([k \in 1..3 |-> RoundDiv(v[k], 64)])
      trace == M[1][1] + M[2][2] + M[3][3]
      most == Dot(u, Apply(M, u)) \div Dot(u, u)
  \* five times the variance across it, so that eight steps of power iteration get there as well
  IN  [v |-> v, some |-> v # <<0, 0, 0>> /\ u # <<0, 0, 0>> /\ 6 * most >= 5 * trace
                         /\ \A x \in S : s(x) >= 20]

\* [v |-> axis, some |-> is there one, exact |-> colours on a line]
AxisOf(c) ==
  LET S == Colours(c)
      s == TLCEval([v \in S |-> ColourWeight(c, v)])
      p == TLCEval(Principal(S, LAMBDA v : s[v]))
  IN  IF Collinear(S) THEN [v |-> Direction(S), some |-> TRUE, exact |-> TRUE]
                      ELSE [v |-> p.v, some |-> p.some, exact |-> FALSE]

\* Is p before q along the axis, whatever its error?  With the weights off by up to 2.5 % (half a
\* unit in twenty) and the variance across at most a fifth, the axis turns by at most
\* 0.025 * sqrt(1/5) * 5/4 = 0.014;  the integers above add 0.002 and what eight steps of power
\* iteration leave of the rest is less than 0.001.  0.02 is a fiftieth.
\* 50 * 3 * 255 * 8192 = 3.2e8
SureBefore(ax, p, q) ==
  LET e == Sub(q, p)  a == Dot(e, ax.v)
  IN  IF ax.exact THEN a > 0
      ELSE 50 * a >= (ISqrt(Dot(e, e)) + 1) * (ISqrt(Dot(ax.v, ax.v)) + 1)

---------------------------------------------------------------------------
\* C11: range fit.  Weights <= 20 : 16 * 400 * 3 * 255^2 = 1.25e9

EndpointGrids(c) == {Grid(Color0(c.b, ColourOff(c.f))), Grid(Color1(c.b, ColourOff(c.f)))}

RangeEndpointsFromBlock(c) ==
  EndpointGrids(c) \subseteq {QuantGrid(v) : v \in Colours(c)}

RangeEndpointsSpanAxis(c) ==
  LET S == Colours(c)
      ax == AxisOf(c)
      first == {p \in S : \A q \in S \ {p} : SureBefore(ax, p, q)}
      last == {p \in S : \A q \in S \ {p} : SureBefore(ax, q, p)}
      ends == {QuantGrid(p) : p \in first \cup last}
  IN  ax.some => IF first # {} /\ last # {} THEN EndpointGrids(c) = ends
                                            ELSE ends \subseteq EndpointGrids(c)

\* opaque entries of the palette in use
UsablePalette(c) ==
  LET off == ColourOff(c.f)
      p == ColourPalette(c.b, off, c.f = 1)
  IN  IF ThreeColour(c.b, off, c.f = 1) THEN {p[1], p[2], p[3]} ELSE {p[1], p[2], p[3], p[4]}

RangeNearest(c, d) ==
  LET P == UsablePalette(c)
      n == Sq(c.w[1]) + Sq(c.w[2]) + Sq(c.w[3])
  IN  \A i \in Vis(c) :
        LET v == Rgb(c, i)
            best == MinOf({WD2(c.w, v, p) : p \in P})
        IN  WithinRoot(WD2(c.w, v, d[i]), best, 12, n)

\* BC1, opaque: not worse than the other mode with the same endpoints
RangeBetterMode(c, d) ==
  LET S == Colours(c)
      e == EndpointGrids(c)
      p == ExpandGrid(CHOOSE x \in e : TRUE)
      q == IF Cardinality(e) = 1 THEN p
           ELSE ExpandGrid(CHOOSE x \in e : ExpandGrid(x) # p)
      P3 == {p, q, Half(p, q)}
      P4 == {p, q, Third(p, q), Third(q, p)}
      n == Sq(c.w[1]) + Sq(c.w[2]) + Sq(c.w[3])
      Err(P) == SumOver(S, LAMBDA v : MinOf({WD2(c.w, v, x) : x \in P}))
      Got == SumOver(S, LAMBDA v : MaxOf({WD2(c.w, v, d[i]) : i \in {j \in Vis(c) : Rgb(c, j) = v}}))
  IN  IF c.f = 1 /\ ~HasTransparent(c)
      THEN WithinRoot(Got, Min2(Err(P3), Err(P4)), 12, n * Cardinality(S))
      ELSE WithinRoot(Got, IF c.f = 1 THEN Err(P3) ELSE Err(P4), 12, n * Cardinality(S))

---------------------------------------------------------------------------
\* C12, C13: cluster fit.  Weights <= 8.

\* [col |-> distinct colours, s |-> their weights] as sequences
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

\* total error of decoding d; a colour's error is that of its worst pixel.
\* <= 8 * 3 * 255^2 * 1280 = 2.0e9
WorstPix(c, d, v) == MaxOf({WD(c.w, v, d[i]) : i \in {j \in Vis(c) : Rgb(c, j) = v}})

ClusterTerms(c, d) ==            \* <<total error, sum of unweighted errors, total weight>>
  LET S == Colours(c)
      t == TLCEval([v \in S |-> <<WorstPix(c, d, v), ColourWeight(c, v)>>])
  IN  <<SumOver(S, LAMBDA v : t[v][1] * t[v][2]),
        SumOver(S, LAMBDA v : t[v][1]),
        SumOver(S, LAMBDA v : t[v][2])>>

SumW(w) == w[1] + w[2] + w[3]
\* weighted square of half a 5:6:5 step (4.113, 2.024, 4.113 levels), rounded up
HalfStepSq(w) == 17 * w[1] + 5 * w[2] + 17 * w[3]

\* err <= base + rounding to 5:6:5, then 1.5 levels of palette rounding; the weights' own
\* rounding (half a unit each) can move either side by half the unweighted sums.
\* Saturating at 2^30 keeps the sums within 32 bits.
Sat(x) == Min2(x, 1073741823)
FitWithin(err, errU, base, baseU, ws, w) ==
  LET lim == Sat(Sat(base) + (HalfStepSq(w) * ws) + (baseU + errU) \div 2 + ws)
  IN  WithinRoot(Sat(err), lim, 6, ws * SumW(w))

\* painting everything in the average colour
FlatBaseline(c, d) ==
  LET S == Colours(c)
      t == ClusterTerms(c, d)
      s == TLCEval([v \in S |-> ColourWeight(c, v)])
      avg == TLCEval([k \in 1..3 |-> (SumOver(S, LAMBDA v : s[v] * v[k]) + t[3] \div 2) \div t[3]])
      base == SumOver(S, LAMBDA v : s[v] * WD(c.w, v, avg))
      baseU == SumOver(S, LAMBDA v : WD(c.w, v, avg))
  IN  FitWithin(t[1], t[2], base, baseU, t[3], c.w)

\* endpoints are least squares for the emitted indices: in each channel the residuals,
\* averaged with the weights of either endpoint, are at most half a step
Coef(mode, idx) == \* weight of endpoint 0, in 1/3 (mode 4) or 1/2 (mode 3)
  IF mode = 4 THEN <<3, 0, 2, 1>>[idx + 1] ELSE <<2, 0, 1, 0>>[idx + 1]

LeastSquares(c) ==
  LET off == ColourOff(c.f)
      mode == IF ThreeColour(c.b, off, c.f = 1) THEN 3 ELSE 4
      den == mode - 1
      g0 == Grid(Color0(c.b, off))
      g1 == Grid(Color1(c.b, off))
      S == Colours(c)
      rep == TLCEval([v \in S |-> CHOOSE i \in Vis(c) : Rgb(c, i) = v])
      s == TLCEval([v \in S |-> ColourWeight(c, v)])
      al == TLCEval([v \in S |-> Coef(mode, ColourIndex(c.b, off, rep[v]))])
      top == <<31, 63, 31>>
      \* residual in units of 1/(den*top) levels: <= 3 * 63 * 255 = 48195
      res == TLCEval([v \in S |-> TLCEval([k \in 1..3 |->
               den * top[k] * v[k] - 255 * (al[v] * g0[k] + (den - al[v]) * g1[k])])])
      Cond(k, A(_)) ==
        LET lhs == Abs(SumOver(S, LAMBDA v : s[v] * A(v) * res[v][k]))
            wt  == SumOver(S, LAMBDA v : s[v] * A(v))
            \* half a step is 255/(2*top) levels; a quarter level for floating point;
            \* half a unit of each weight
            lim == wt * ((255 * den + 1) \div 2 + (den * top[k]) \div 4)
                   + SumOver(S, LAMBDA v : A(v) * Abs(res[v][k])) \div 2
        IN  lhs <= lim
      Free(k) == /\ g0[k] # 0 /\ g0[k] # top[k] /\ g1[k] # 0 /\ g1[k] # top[k]
  \* with a single index in use the fit is underdetermined
  IN  (g0 # g1 /\ Cardinality({al[v] : v \in S}) > 1) =>
        \A k \in 1..3 : Free(k) =>
           /\ Cond(k, LAMBDA v : al[v])
           /\ Cond(k, LAMBDA v : den - al[v])

---------------------------------------------------------------------------
\* The best least-squares fit over all cuts of the axis into consecutive clusters, cut where
\* the order of the colours along it is certain.
\*
\* P: colours in order along the axis, s: their weights (SC scale), s8: the same / 10.
\* Prefix sums of s8 and s8*colour give the normal equations of a cut in small integers:
\* sum s8 <= 128, A2 <= 1152, AX <= 97920, 3*AX*B2 <= 3.4e8.

Prefix(P, s8) ==
  LET n == Len(P)
      RECURSIVE Acc(_)
      Acc(k) == IF k = 0 THEN <<<<0, 0, 0, 0>>>>
                ELSE LET a == Acc(k - 1) IN
                     Append(a, <<a[k][1] + s8[k], a[k][2] + s8[k] * P[k][1],
                                 a[k][3] + s8[k] * P[k][2], a[k][4] + s8[k] * P[k][3]>>)
  IN  Acc(n)

\* endpoints <<a, b>> in one channel for coefficients x (numerators, over den) of the four
\* runs, or <<-1, -1>> if singular or outside the unclamped range
SolveChannel(pre, cut, co, den, k) ==
  LET W(r) == pre[cut[r+1] + 1][1] - pre[cut[r] + 1][1]
      X(r) == pre[cut[r+1] + 1][k+1] - pre[cut[r] + 1][k+1]
      R == 1..Len(co)
      A2 == SumTo(Len(co), LAMBDA r : co[r] * co[r] * W(r))
      B2 == SumTo(Len(co), LAMBDA r : (den - co[r]) * (den - co[r]) * W(r))
      AB == SumTo(Len(co), LAMBDA r : co[r] * (den - co[r]) * W(r))
      AX == SumTo(Len(co), LAMBDA r : co[r] * X(r))
      BX == SumTo(Len(co), LAMBDA r : (den - co[r]) * X(r))
      det == A2 * B2 - AB * AB
  IN  IF det = 0 THEN <<-1, -1>>
      ELSE LET a == RoundDiv(den * (AX * B2 - BX * AB), det)
               b == RoundDiv(den * (BX * A2 - AX * AB), det)
           IN  IF a \in 16..239 /\ b \in 16..239 THEN <<a, b>> ELSE <<-1, -1>>

RunOf(cut, n) == CHOOSE r \in 1..(Len(cut) - 1) : cut[r] < n /\ n <= cut[r + 1]

\* <<weighted error, unweighted error>> of a cut (each colour's error rounded up)
CutError(P, s, w, cut, co, den, pre) ==
  LET e == TLCEval([k \in 1..3 |-> SolveChannel(pre, cut, co, den, k)])
      Err(n) == LET r == RunOf(cut, n)
                    Q(k) == den * P[n][k] - (co[r] * e[k][1] + (den - co[r]) * e[k][2])
                IN  (w[1]*Sq(Q(1)) + w[2]*Sq(Q(2)) + w[3]*Sq(Q(3))) \div (den * den) + 1
      errs == TLCEval([n \in 1..Len(P) |-> Err(n)])
  IN  IF \E k \in 1..3 : e[k][1] = -1 THEN <<-1, -1>>
      ELSE <<SumTo(Len(P), LAMBDA n : s[n] * errs[n]), SumTo(Len(P), LAMBDA n : errs[n])>>

AxisBaselineMode(c, d, ax, mode) ==
  LET S == Colours(c)
      P == TLCEval(SortSeq(SetSeq(S), LAMBDA p, q : Dot(p, ax.v) < Dot(q, ax.v)))
      n == Len(P)
      K == TLCEval({k \in 0..n : \A i \in 1..k : \A j \in (k+1)..n : SureBefore(ax, P[i], P[j])})
      s == TLCEval([k \in 1..n |-> ColourWeight(c, P[k])])
      s8 == TLCEval([k \in 1..n |-> Max2(1, RoundDiv(s[k], 10))])
      pre == TLCEval(Prefix(P, s8))
      co == IF mode = 4 THEN <<3, 2, 1, 0>> ELSE <<2, 1, 0>>
      t == TLCEval(ClusterTerms(c, d))
  IN  \A i \in K : \A j \in {x \in K : x >= i} :
      \A k \in (IF mode = 4 THEN {x \in K : x >= j} ELSE {n}) :
        LET cut == IF mode = 4 THEN <<0, i, j, k, n>> ELSE <<0, i, j, n>>
            x == TLCEval(CutError(P, s, c.w, cut, co, mode - 1, pre))
        IN  x[1] = -1 \/ FitWithin(t[1], t[2], x[1], x[2], t[3], c.w)

AxisBaseline(c, d) ==
  LET ax == TLCEval(AxisOf(c))
  IN  ax.some => /\ c.f = 1 => AxisBaselineMode(c, d, ax, 3)
                 /\ ~(c.f = 1 /\ HasTransparent(c)) => AxisBaselineMode(c, d, ax, 4)

\* C13: it iterative, cl plain; C23: it opaque BC1, cl BC2 or BC3.  Same input otherwise.
SameInput(it, cl) == /\ it.m = cl.m /\ it.px = cl.px /\ it.w = cl.w /\ it.aw = cl.aw /\ it.sc = cl.sc
C13Pair(it, cl) == SameInput(it, cl) /\ it.f = cl.f /\ it.g = 2 /\ cl.g = 1
C23Pair(it, cl) == /\ SameInput(it, cl) /\ it.f = 1 /\ ~HasTransparent(it) /\ cl.f \in {2, 3}
                   /\ it.g \in {1, 2} /\ cl.g = 1

NotWorse(it, di, cl, dc) ==
  LET a == TLCEval(ClusterTerms(it, di))
      b == TLCEval(ClusterTerms(cl, dc))
  IN  WithinRoot(Sat(a[1]), Sat(b[1] + (a[2] + b[2]) \div 2 + b[3]), 12, b[3] * SumW(cl.w))
=============================================================================
