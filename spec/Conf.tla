-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance: every record of a trace taken from the real library or CLI *)
(* is judged against the specification.                                    *)
(*                                                                         *)
(* The trace is split over Chains interleaved chains so that TLC's workers *)
(* share it; each step of a chain consumes one record.  A record that      *)
(* breaks an obligation is printed with the names of the broken clauses;   *)
(* the run must end having consumed every record (Accepted).               *)
(*                                                                         *)
(* Records marked x = 1 are corrupted on purpose by the recorder and must  *)
(* be rejected: they show, in every run, that the clauses can fail.        *)
(***************************************************************************)
EXTENDS Image, Json, IOUtils

Prop == IOEnv.PROP
Chains == 64

Trace == ndJsonDeserialize(IOEnv.TRACE)

N == Len(Trace)

\* C09: computed by Tables.tla
LeastErrors == JsonDeserialize(IOEnv.TABLES).least

VARIABLES chain, l
vars == <<chain, l>>

---------------------------------------------------------------------------
\* groups of calls: same key => same result

\* colour half: everything the encoder may look at
ColourKey(c) ==
  <<c.g, c.w, c.aw, c.f = 1,
    [i \in Pix |-> IF ~InMask(c, i) THEN <<-1>>
                   ELSE IF Transparent(c, i) THEN <<-2>>
                   ELSE IF c.aw = 1 THEN Rgb(c, i) \o <<Alpha(c, i)>> ELSE Rgb(c, i)]>>
ChanKey(c, ch) == [i \in Pix |-> IF InMask(c, i) THEN Chan(c, i, ch) ELSE -1]

Parts(c) ==          \* {<<kind, key, bytes>>}
  (IF HasColour(c.f) THEN {<<"colour", ColourKey(c), Bytes(c.b, ColourOff(c.f), 8)>>} ELSE {})
  \cup (IF c.f = 2 THEN {<<"explicit", ChanKey(c, 4), Bytes(c.b, 0, 8)>>} ELSE {})
  \cup {<<"ramp", ChanKey(c, s[2]), Bytes(c.b, s[1], 8)>> : s \in Streams(c.f)}

OnlyStoredInput(r) ==
  LET P == TLCEval(UNION {Parts(r.calls[k]) : k \in 1..Len(r.calls)})
  IN  \A p, q \in P : (p[1] = q[1] /\ p[2] = q[2]) => p[3] = q[3]

\* C15: parameters reduced to what may matter
RECURSIVE OddPart(_)
OddPart(w) == IF \A k \in 1..3 : w[k] % 2 = 0
              THEN IF \A k \in 1..3 : w[k] = 0 THEN w
                   ELSE OddPart(<<w[1] \div 2, w[2] \div 2, w[3] \div 2>>)
              ELSE w
\* the common factor of the weights, up to powers of two: factors 2 and 3 are 0.05 and 0.1,
\* the others powers of two from 2^-20 to 2^16
ScaleClass(c) == IF c.sc \in {2, 3} THEN c.sc ELSE 0
ParamKey(c) ==
  IF ~HasColour(c.f) THEN <<>>
  ELSE <<c.g, OddPart(c.w), ScaleClass(c),
         IF \A i \in Vis(c) : Alpha(c, i) = 255 THEN 0 ELSE c.aw>>
OnlyRatios(r) ==
  \A j, k \in 1..Len(r.calls) :
    LET a == r.calls[j]  b == r.calls[k] IN
    (a.f = b.f /\ a.m = b.m /\ a.px = b.px /\ ParamKey(a) = ParamKey(b)) => a.b = b.b

\* C09: neither algorithm nor weights matter
SameDecoding(r) ==
  \A j, k \in 1..Len(r.calls) :
    LET a == r.calls[j]  b == r.calls[k] IN
    (a.f = b.f /\ a.m = b.m /\ a.px = b.px) =>
      \A i \in Vis(a) : \A n \in 1..3 : a.o[4*i + n] = b.o[4*i + n]

\* C04: calls identified by everything they may depend on
Deterministic(r) ==
  \A j, k \in 1..Len(r.calls) : r.calls[j].key = r.calls[k].key => r.calls[j].out = r.calls[k].out

---------------------------------------------------------------------------
\* C16

\* numbers up to 2^64 as four limbs of 16 bits, least first.  n = 4*q + rem.

\* q + 1 if rem > 0: ceil(n / 4)
LimbCeil(q, rem) ==
  LET c0 == q[1] + (IF rem > 0 THEN 1 ELSE 0)
      c1 == q[2] + c0 \div 65536
      c2 == q[3] + c1 \div 65536
      c3 == q[4] + c2 \div 65536
  IN  <<c0 % 65536, c1 % 65536, c2 % 65536, c3>>

\* q * m, m < 2^14
LimbTimes(q, m) ==
  LET c0 == q[1] * m
      c1 == q[2] * m + c0 \div 65536
      c2 == q[3] * m + c1 \div 65536
      c3 == q[4] * m + c2 \div 65536
  IN  <<c0 % 65536, c1 % 65536, c2 % 65536, c3>>

BigCeil(r) == r.o = LimbCeil(r.q, r.rem)
BigSize(r) == r.s = LimbTimes(LimbCeil(r.q, r.rem), CeilDiv4(r.h) * BlockSize(r.f))

---------------------------------------------------------------------------

\* both the specification's and the library's decoding must satisfy F
Both(c, F(_)) == F(TLCEval(SpecDec(c))) /\ F(TLCEval(LibDec(c)))

Many(c) == Cardinality(Colours(c)) > 1

\* <<clause name, holds>> pairs for a record that ended normally
EncClauses(r) ==
  CASE Prop = "C05" -> <<<<"mask", r.f = 1 => Both(r, LAMBDA d : KeepsMask(r, d))>>>>
    [] Prop = "C06" -> <<<<"nearest", Both(r, LAMBDA d : NearestExplicit(r, d))>>,
                         <<"stable", \A i \in MaskSet(r) : r.o2[4*i + 4] = r.o[4*i + 4]>>>>
    [] Prop = "C07" ->
        <<<<"nearest", \A s \in Streams(r.f) : Both(r, LAMBDA d : StreamNearest(r, s, d))>>,
          <<"best", \A s \in Streams(r.f) : Both(r, LAMBDA d : StreamBest(r, s, d))>>>>
    [] Prop = "C09" ->
        <<<<"optimal", Cardinality(Colours(r)) = 1 => Both(r, LAMBDA d : UniformOptimal(LeastErrors, r, d))>>>>
    [] Prop = "C10" ->
        <<<<"twocolour", Cardinality(Colours(r)) = 2 => Both(r, LAMBDA d : TwoColour(r, d))>>>>
    [] Prop = "C11" ->
        <<<<"fromblock", Many(r) => RangeEndpointsFromBlock(r)>>,
          <<"axis", Many(r) => RangeEndpointsSpanAxis(r)>>,
          <<"nearest", Many(r) => Both(r, LAMBDA d : RangeNearest(r, d))>>,
          <<"mode", Many(r) => Both(r, LAMBDA d : RangeBetterMode(r, d))>>>>
    [] Prop = "C12" ->
        <<<<"leastsquares", Many(r) => LeastSquares(r)>>,
          <<"flat", Many(r) => Both(r, LAMBDA d : FlatBaseline(r, d))>>,
          <<"axis", Many(r) => AxisBaseline(r, TLCEval(SpecDec(r)))>>>>
    [] Prop = "C14" ->
        <<<<"modesafe", ModeSafe(r)>>,
          <<"opaque", Both(r, LAMBDA d : NeverTransparent(r, d))>>>>
    [] Prop = "C22" ->
        <<<<"equal", Both(r, LAMBDA d : EqualStayEqual(r, d))>>,
          <<"order", Both(r, LAMBDA d : KeepsOrder(r, d))>>>>
    [] Prop = "C24" -> <<<<"unchanged", Unchanged(r, LibDec(r), Texels(r.o2))>>,
                         <<"decoded", Unchanged(r, TLCEval(SpecDec(r)), Texels(r.o2))>>>>
    [] OTHER -> <<<<"completes", TRUE>>>>

Clauses(r) ==
  CASE r.k = "dec" -> <<<<"decode", r.o = [n \in 1..64 |->
                            Decode(r.f, r.b)[(n - 1) \div 4][1 + ((n - 1) % 4)]]>>>>
    [] r.k = "enc" -> EncClauses(r)
    [] r.k = "mov" ->
        <<<<"recorder", Rearranged(r.a, r.z, r.perm)>>,
          <<"follows", /\ FollowsPixels(r.a, r.z, r.perm, TLCEval(SpecDec(r.a)), TLCEval(SpecDec(r.z)))
                       /\ FollowsPixels(r.a, r.z, r.perm, LibDec(r.a), LibDec(r.z))>>>>
    [] r.k = "pair" -> <<<<"recorder", IF Prop = "C13" THEN C13Pair(r.it, r.cl) ELSE C23Pair(r.it, r.cl)>>,
                         <<"notworse", Many(r.it) =>
                           /\ NotWorse(r.it, TLCEval(SpecDec(r.it)), r.cl, TLCEval(SpecDec(r.cl)))
                           /\ NotWorse(r.it, TLCEval(LibDec(r.it)), r.cl, TLCEval(LibDec(r.cl)))>>>>
    [] r.k = "grp" -> <<<<r.rel, CASE r.rel = "stored" -> OnlyStoredInput(r)
                                   [] r.rel = "ratios" -> OnlyRatios(r)
                                   [] r.rel = "uniform" -> SameDecoding(r)
                                   [] r.rel = "det" -> Deterministic(r)>>>>
    [] r.k = "dimg" -> <<<<"texels", Decompressed(r)>>, <<"tail", Untouched(r.tail, r.fill)>>>>
    [] r.k = "cimg" -> <<<<"recorder", TilesWellFormed(r)>>, <<"blocks", ComposedOfBlocks(r)>>,
                         <<"tail", Untouched(r.tail, r.fill)>>>>
    [] r.k = "cbig" -> <<<<"recorder", LargeTile(r)>>, <<"blocks", r.got = r.b>>>>
    [] r.k = "cspot" -> <<<<"recorder", LargeSpot(r)>>, <<"blocks", r.got = r.b>>>>
    [] r.k = "tail" -> <<<<"tail", Untouched(r.tail, r.fill)>>>>
    [] r.k = "dbig" -> <<<<"texels", LargeTexels(r)>>>>
    [] r.k = "size" -> <<<<"numblocks", r.nw = CeilDiv4(r.w) /\ r.nh = CeilDiv4(r.h)>>,
                         <<"blocksize", r.bs = BlockSize(r.f)>>,
                         <<"size", r.cs = CompressedSize(r.f, r.w, r.h)>>>>
    [] r.k = "nb" -> <<<<"numblocks", BigCeil(r)>>>>
    [] r.k = "big" -> <<<<"size", BigSize(r)>>>>
    [] r.k = "short" ->
         <<<<"refused", r.len < CompressedSize(r.f, r.w, r.h) => r.panicked = 1 /\ r.touched = 0>>,
           <<"accepted", r.len >= CompressedSize(r.f, r.w, r.h) => r.panicked = 0>>>>
    [] r.k = "def" ->
         <<<<"defaults", /\ r.alg = 1 /\ r.palg = 1 /\ r.aw = 0
                         /\ r.w = <<2126, 7152, 722>> /\ r.wp = <<2126, 7152, 722>>
                         /\ r.wu = <<10000, 10000, 10000>>>>,
           <<"same", r.b = r.b2>>>>
    [] r.k = "done" -> <<<<"completes", TRUE>>>>

\* names of the clauses record r breaks
Broken(r) ==
  IF r.p = 1 THEN {"panic"}
  ELSE IF r.p = 2 THEN {"hang"}
  ELSE LET c == Clauses(r) IN {c[n][1] : n \in {m \in 1..Len(c) : ~c[m][2]}}

\* corrupted records must be rejected, the others accepted
Judge(n) ==
  LET b == Broken(Trace[n])
  IN  IF Trace[n].x = 1
      THEN IF b = {} THEN PrintT(<<"CANARY-ACCEPTED", n>>) ELSE TRUE
      ELSE IF b # {} THEN PrintT(<<"BROKEN", n, b>>) ELSE TRUE

---------------------------------------------------------------------------

Init == chain \in 1..Chains /\ l = chain

Consume == /\ l <= N
           /\ Judge(l)
           /\ l' = l + Chains
           /\ UNCHANGED chain

Spec == Init /\ [][Consume]_vars

\* one state per consumed record, plus the chains' initial states
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Chains, N>>)
            /\ TLCGet("stats").distinct = N + Chains
=============================================================================
