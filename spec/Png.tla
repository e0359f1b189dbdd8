-------------------------------- MODULE Png --------------------------------
(***************************************************************************)
(* What the samples of a PNG mean as RGBA8.                                *)
(*                                                                         *)
(* r.ct colour type (0 grey, 2 RGB, 3 palette, 4 grey+alpha, 6 RGBA),      *)
(* r.bd bit depth, r.s samples of all pixels in row order, r.plte palette  *)
(* entries <<r, g, b>>, r.trns: palette alphas, or the transparent sample  *)
(* values, or <<>>.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Channels(ct) == CASE ct \in {0, 3} -> 1 [] ct = 2 -> 3 [] ct = 4 -> 2 [] ct = 6 -> 4

LegalDepths(ct) == CASE ct = 0 -> {1, 2, 4, 8, 16} [] ct = 3 -> {1, 2, 4, 8} [] OTHER -> {8, 16}

\* a sample as 8 bits: low depths scaled to 0..255, 16 bits to their high byte
To8(v, bd) == CASE bd = 1 -> 255 * v [] bd = 2 -> 85 * v [] bd = 4 -> 17 * v
                [] bd = 8 -> v [] bd = 16 -> v \div 256

\* pixel n (0-based)
PixelOf(r, n) ==
  LET c == Channels(r.ct)
      S(k) == r.s[n * c + k]
      E(k) == To8(S(k), r.bd)
  IN  CASE r.ct = 0 -> <<E(1), E(1), E(1), IF r.trns = <<S(1)>> THEN 0 ELSE 255>>
        [] r.ct = 2 -> <<E(1), E(2), E(3), IF r.trns = <<S(1), S(2), S(3)>> THEN 0 ELSE 255>>
        [] r.ct = 3 -> LET p == r.plte[S(1) + 1] IN
                       <<p[1], p[2], p[3], IF S(1) < Len(r.trns) THEN r.trns[S(1) + 1] ELSE 255>>
        [] r.ct = 4 -> <<E(1), E(1), E(1), E(2)>>
        [] r.ct = 6 -> <<E(1), E(2), E(3), E(4)>>

ReadsAs(r) ==
  /\ Len(r.px) = 4 * r.w * r.h
  /\ \A n \in 0..(r.w * r.h - 1) :
       LET p == PixelOf(r, n) IN \A k \in 1..4 : r.px[4 * n + k] = p[k]

\* JPEG: r.kind "L" or "R", r.s the decoded samples
JpegAs(r) ==
  /\ Len(r.px) = 4 * r.w * r.h
  /\ \A n \in 0..(r.w * r.h - 1) :
       /\ r.px[4 * n + 4] = 255
       /\ \A k \in 1..3 : r.px[4 * n + k] = IF r.kind = "L" THEN r.s[n + 1] ELSE r.s[3 * n + k]
=============================================================================
