----------------------------- MODULE Endpoints ------------------------------
(***************************************************************************)
(* Writing a colour block: a fit (two packed end points, a three- or four- *)
(* entry scheme, an entry per pixel, pixels that must be transparent) into *)
(* a block whose palette the decoder selects by the order of the end       *)
(* points (C05, C14; the exchange behind C10 to C13).                      *)
(*                                                                         *)
(* Packed end points are small numbers: only their order matters.  Entries *)
(* are <<weight of start, weight of end>> in sixths; equal end points make *)
(* all opaque entries alike.                                               *)
(*                                                                         *)
(* Mut names a deviation TLC must reject:                                  *)
(*   noswap3  the ends of a three-colour block are not put in order        *)
(*   noremap3 they are, without exchanging the indices                     *)
(*   remap3   index 3 is exchanged as well                                 *)
(*   noswap4, noremap4  the same for four colours                          *)
(*   equal4   indices kept when the ends are equal                         *)
(*   clear4   transparent pixels in a four-colour block                    *)
(*   masked   masked pixels keep the index of another fit                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxEnd, N, Mut
VARIABLES f,           \* 1: BC1; 2: BC2 or BC3
          fit,         \* [start, end, mode, ix]: ix of each pixel's entry
          kind,        \* pixel -> "valid", "clear" (transparent) or "masked"
          blk, at
vars == <<f, fit, kind, blk, at>>

P == 1..N
Init ==
  /\ f \in {1, 2}
  /\ kind \in [P -> {"valid", "clear", "masked"}]
  /\ f = 2 => \A i \in P : kind[i] # "clear"
  /\ fit \in [start : 0..MaxEnd, end : 0..MaxEnd, mode : {3, 4}, ix : [P -> 0..3]]
  \* the fits' own part: four colours unless BC1; three where BC1 has clear pixels; no
  \* valid pixel is given the fourth of three colours, and none but valid ones a colour
  /\ f = 2 => fit.mode = 4
  /\ (\E i \in P : kind[i] = "clear") => fit.mode = 3 \/ Mut = "clear4"
  /\ \A i \in P : /\ kind[i] = "valid" /\ fit.mode = 3 => fit.ix[i] < 3
                  /\ kind[i] # "valid" => fit.ix[i] = 3 \/ Mut = "masked"
  /\ blk = [c0 |-> 0, c1 |-> 0, ix |-> [i \in P |-> 0]]
  /\ at = "fitted"

X(x, lim) == IF x = 0 THEN 1 ELSE IF x = 1 THEN 0 ELSE IF lim = 4 THEN 5 - x ELSE x

Write3 ==
  /\ at = "fitted" /\ fit.mode = 3 /\ at' = "written"
  /\ blk' = IF fit.start > fit.end /\ Mut # "noswap3"
            THEN [c0 |-> fit.end, c1 |-> fit.start,
                  ix |-> IF Mut = "noremap3" THEN fit.ix
                         ELSE [i \in P |-> X(fit.ix[i], IF Mut = "remap3" THEN 4 ELSE 3)]]
            ELSE [c0 |-> fit.start, c1 |-> fit.end, ix |-> fit.ix]
  /\ UNCHANGED <<f, fit, kind>>
Write4 ==
  /\ at = "fitted" /\ fit.mode = 4 /\ at' = "written"
  /\ blk' = IF fit.start < fit.end /\ Mut # "noswap4"
            THEN [c0 |-> fit.end, c1 |-> fit.start,
                  ix |-> IF Mut = "noremap4" THEN fit.ix ELSE [i \in P |-> X(fit.ix[i], 4)]]
            ELSE IF fit.start = fit.end /\ Mut # "equal4"
            THEN [c0 |-> fit.start, c1 |-> fit.end, ix |-> [i \in P |-> 0]]
            ELSE [c0 |-> fit.start, c1 |-> fit.end, ix |-> fit.ix]
  /\ UNCHANGED <<f, fit, kind>>
Next == Write3 \/ Write4
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* an entry as what it contributes of which packed colour; clear is <<>>
Mix(c, d, wc, wd) == IF c = d THEN {<<c, 6>>} ELSE {p \in {<<c, wc>>, <<d, wd>>} : p[2] > 0}
Entry3(c, d, x) == CASE x = 0 -> Mix(c, d, 6, 0) [] x = 1 -> Mix(c, d, 0, 6)
                     [] x = 2 -> Mix(c, d, 3, 3) [] x = 3 -> {}
Entry4(c, d, x) == CASE x = 0 -> Mix(c, d, 6, 0) [] x = 1 -> Mix(c, d, 0, 6)
                     [] x = 2 -> Mix(c, d, 4, 2) [] x = 3 -> Mix(c, d, 2, 4)

\* what the fit meant pixel i to be, and what a decoder makes of it
Meant(i) == IF fit.mode = 3 THEN Entry3(fit.start, fit.end, fit.ix[i])
            ELSE Entry4(fit.start, fit.end, fit.ix[i])
Decoded(rule, i) == IF rule /\ blk.c0 <= blk.c1 THEN Entry3(blk.c0, blk.c1, blk.ix[i])
                    ELSE Entry4(blk.c0, blk.c1, blk.ix[i])
Valid == {i \in P : kind[i] = "valid"}

\* a pixel decodes to the entry the fit chose
Faithful == at = "written" => \A i \in Valid : Decoded(f = 1, i) = Meant(i)
\* C05
ClearStays == (at = "written" /\ f = 1) =>
                \A i \in P : (kind[i] = "clear" => Decoded(TRUE, i) = {})
                             /\ (kind[i] = "valid" => Decoded(TRUE, i) # {})
\* C14
ModeSafe == (at = "written" /\ f = 2) => \A i \in Valid : Decoded(TRUE, i) = Decoded(FALSE, i)
\* C08: pixels that are neither valid nor clear are encoded alike whatever they hold
MaskedFixed == at = "written" =>
  \A i \in P : (kind[i] = "masked" /\ blk.c0 # blk.c1) =>
     blk.ix[i] = (IF fit.mode = 3 THEN 3 ELSE IF fit.start < fit.end THEN 2 ELSE 3)
=============================================================================
