------------------------------ MODULE AlphaFit ------------------------------
(***************************************************************************)
(* The encoder of an interpolated channel (BC3 alpha, BC4, BC5), step by   *)
(* step: range, widening, two ramps, nearest codes, choice, and the        *)
(* exchange of the ends that selects the decoder's ramp.  What it emits    *)
(* owes exactly what C07 says, and does not depend on masked pixels (C08). *)
(* What it decodes to is encoded once more (C24).                          *)
(*                                                                         *)
(* px are the values of a few pixels, ok which of them are valid; the rest *)
(* of the block is masked out.  Mut names a deviation TLC must reject:     *)
(*   codes7  7-step codes interpolated from the wrong end                  *)
(*   remap7  indices not exchanged with the ends of the 7-step ramp        *)
(*   remap5  5-step indices exchanged like those of the 7-step ramp        *)
(*   range5  the 5-step range includes 0 and 255                           *)
(*   mask    masked pixels widen the range                                 *)
(*   junk    masked pixels count in the choice of ramp                     *)
(*   only5   the 7-step ramp is never chosen                               *)
(*   order7  the 7-step ends are not exchanged                             *)
(*   steps   the 7-step range is widened to 5 levels only                  *)
(*   first   the search stops at the first code not worse than the next    *)
(***************************************************************************)
EXTENDS Enc

CONSTANTS Vals, N, Mut
VARIABLES at, px, ok, r5, r7, i5, i7, e5, e7, blk, pass
vars == <<at, px, ok, r5, r7, i5, i7, e5, e7, blk, pass>>

Init ==
  /\ at = "range" /\ px \in [1..N -> Vals] /\ ok \in [1..N -> BOOLEAN]
  \* equal up to order of the pixels; a masked pixel in the last place only
  /\ \A k \in 1..(N - 1) : ok[k] /\ (k < N - 1 => px[k] <= px[k + 1])
  /\ ok[N] => px[N - 1] <= px[N]
  /\ r5 = <<0, 0>> /\ r7 = <<0, 0>> /\ i5 = <<>> /\ i7 = <<>> /\ e5 = 0 /\ e7 = 0
  /\ blk = [a0 |-> 0, a1 |-> 0, ix |-> <<>>] /\ pass = 1

Valid == {k \in 1..N : ok[k] \/ Mut = "mask"}
V == {px[k] : k \in Valid}

RangeOf(S) == LET lo == IF S = {} THEN 255 ELSE MinOf(S)
                  hi == IF S = {} THEN 0 ELSE MaxOf(S)
              IN  <<lo, hi>>
FindRange ==
  /\ at = "range" /\ at' = "widen"
  /\ r7' = RangeOf(V)
  /\ r5' = IF Mut = "range5" THEN RangeOf(V)
           ELSE <<RangeOf(V \ {0})[1], RangeOf(V \ {255})[2]>>
  /\ UNCHANGED <<px, ok, i5, i7, e5, e7, blk, pass>>

Fix(r, steps) == LET lo == IF r[1] > r[2] THEN r[2] ELSE r[1]  \* nothing in range
                     h == IF r[2] - lo < steps THEN Min2(lo + steps, 255) ELSE r[2]
                     l == IF h - lo < steps THEN Max2(h - steps, 0) ELSE lo
                 IN  <<l, h>>
WidenBoth ==
  /\ at = "widen" /\ at' = "fit"
  /\ r5' = Fix(r5, 5) /\ r7' = Fix(r7, IF Mut = "steps" THEN 5 ELSE 7)
  /\ UNCHANGED <<px, ok, i5, i7, e5, e7, blk, pass>>

Codes5 == <<r5[1], r5[2]>> \o [k \in 1..4 |-> ((5 - k) * r5[1] + k * r5[2]) \div 5] \o <<0, 255>>
Codes7 == <<r7[1], r7[2]>> \o [k \in 1..6 |->
             IF Mut = "codes7" THEN (k * r7[1] + (7 - k) * r7[2]) \div 7
             ELSE ((7 - k) * r7[1] + k * r7[2]) \div 7]

Nearest(C, v) ==
  IF Mut = "first"
  THEN CHOOSE j \in 1..8 : (j = 8 \/ Abs(C[j] - v) <= Abs(C[j + 1] - v))
                           /\ \A i \in 1..(j - 1) : Abs(C[i] - v) > Abs(C[i + 1] - v)
  ELSE CHOOSE j \in 1..8 : /\ \A i \in 1..8 : Abs(C[i] - v) >= Abs(C[j] - v)
                           /\ \A i \in 1..(j - 1) : Abs(C[i] - v) > Abs(C[j] - v)
Fit ==
  /\ at = "fit" /\ at' = "write"
  /\ LET Counted == {k \in 1..N : ok[k] \/ Mut = "junk"}
         C5 == TLCEval(Codes5)  C7 == TLCEval(Codes7)
     IN  /\ i5' = [k \in 1..N |-> IF ok[k] THEN Nearest(C5, px[k]) - 1 ELSE 0]
         /\ i7' = [k \in 1..N |-> IF ok[k] THEN Nearest(C7, px[k]) - 1 ELSE 0]
         /\ e5' = SumOver(Counted, LAMBDA k : Sq(C5[Nearest(C5, px[k])] - px[k]))
         /\ e7' = SumOver(Counted, LAMBDA k : Sq(C7[Nearest(C7, px[k])] - px[k]))
  /\ UNCHANGED <<px, ok, r5, r7, blk, pass>>

Exchange(x, top) == IF x = 0 THEN 1 ELSE IF x = 1 THEN 0 ELSE IF x <= top THEN top + 2 - x ELSE x

Block5 == IF r5[1] > r5[2]
          THEN [a0 |-> r5[2], a1 |-> r5[1], ix |-> [k \in 1..N |-> Exchange(i5[k], 5)]]
          ELSE [a0 |-> r5[1], a1 |-> r5[2],
                ix |-> IF Mut = "remap5" THEN [k \in 1..N |-> Exchange(i5[k], 7)] ELSE i5]
Block7 == IF r7[1] < r7[2] /\ Mut # "order7"
          THEN [a0 |-> r7[2], a1 |-> r7[1],
                ix |-> IF Mut = "remap7" THEN i7 ELSE [k \in 1..N |-> Exchange(i7[k], 7)]]
          ELSE [a0 |-> r7[1], a1 |-> r7[2], ix |-> i7]
Write ==
  /\ at = "write" /\ at' = "done"
  /\ blk' = IF e5 <= e7 \/ Mut = "only5" THEN Block5 ELSE Block7
  /\ UNCHANGED <<px, ok, r5, r7, i5, i7, e5, e7, pass>>

\* what was decoded goes through the encoder again
Again ==
  /\ at = "done" /\ pass = 1 /\ pass' = 2 /\ at' = "range"
  /\ LET r == TLCEval(Ramp(blk.a0, blk.a1))
     IN  px' = [k \in 1..N |-> IF ok[k] THEN r[blk.ix[k] + 1] ELSE px[k]]
  /\ UNCHANGED <<ok, r5, r7, i5, i7, e5, e7, blk>>

Next == Again \/ FindRange \/ WidenBoth \/ Fit \/ Write
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Good == {k \in 1..N : ok[k]}
GV == {px[k] : k \in Good}
Dec == LET r == TLCEval(Ramp(blk.a0, blk.a1)) IN [k \in 1..N |-> r[blk.ix[k] + 1]]
Err(D) == SumOver(Good, LAMBDA k : Sq(D[k] - px[k]))
RefError(r) == SumOver(Good, LAMBDA k : Sq(NearestIn(r, px[k])))

\* C07, as in Enc.tla
NearestValue == at = "done" => LET r == TLCEval(Ramp(blk.a0, blk.a1))  d == TLCEval(Dec) IN
                                 \A k \in Good : Abs(d[k] - px[k]) = NearestIn(r, px[k])
BetterOfBoth == (at = "done" /\ GV # {}) =>
                  LET e == Err(TLCEval(Dec)) IN
                  e <= RefError(TLCEval(Ramp7(GV))) /\ e <= RefError(TLCEval(Ramp5(GV)))
\* C24: the second time everything is exact
Stable == (at = "done" /\ pass = 2) => LET d == TLCEval(Dec) IN \A k \in Good : d[k] = px[k]
\* C22: order is kept
Ordered == at = "done" => LET d == TLCEval(Dec) IN
             \A j, k \in Good : px[j] <= px[k] => d[j] <= d[k]
\* C08: the block is that of the valid pixels alone.  A masked pixel is in the last place:
\* the reference is the same encoder on what is left, so the ends must be its ends.
MaskedIgnored == (at = "done" /\ ~ok[N]) =>
                   LET w7 == Widen(MinOf(GV), MaxOf(GV), 7)
                   IN  (blk.a0 > blk.a1 => <<blk.a1, blk.a0>> = w7) /\ blk.ix[N] \in {0, 1}
=============================================================================
