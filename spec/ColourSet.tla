----------------------------- MODULE ColourSet ------------------------------
(***************************************************************************)
(* Reducing a block to its distinct colours: every pixel in turn is        *)
(* dropped (masked), made transparent (BC1, alpha below the threshold),    *)
(* merged into an earlier pixel of its colour or made a new point (C05,    *)
(* C08; the weights behind C12 and C13).                                   *)
(*                                                                         *)
(* A pixel is <<colour, alpha>>.  Weights are before the square root, in   *)
(* units of a pixel (plain) or of 1/256 pixel (weighed by alpha).          *)
(* Mut names a deviation TLC must reject:                                  *)
(*   old     duplicates are sought among masked pixels too                 *)
(*   clear   ... among transparent pixels too                              *)
(*   merge   a duplicate's weight is not added                             *)
(*   zero    a pixel of alpha 0 weighs nothing                             *)
(*   strict  the threshold is above 128                                    *)
(*   every   the threshold applies to all formats                          *)
(*   hidden  masked pixels can make the block transparent                  *)
(*   alpha   pixels of different alpha are not duplicates                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS N, Colours, Alphas, Mut
VARIABLES px, m, bc1, aw, i, pts, wt, map, clear
vars == <<px, m, bc1, aw, i, pts, wt, map, clear>>

P == 1..N
Init ==
  /\ px \in [P -> Colours \X Alphas] /\ m \in SUBSET P
  /\ bc1 \in BOOLEAN /\ aw \in BOOLEAN
  /\ i = 1 /\ pts = <<>> /\ wt = <<>> /\ map = [p \in P |-> 0] /\ clear = FALSE

Cut == IF Mut = "strict" THEN 129 ELSE 128
IsClear(p) == (bc1 \/ Mut = "every") /\ px[p][2] < Cut
Weight(p) == IF aw THEN px[p][2] + (IF Mut = "zero" THEN 0 ELSE 1) ELSE 1

Earlier == {j \in 1..(i - 1) : /\ j \in m \/ Mut = "old"
                               /\ px[j][1] = px[i][1]
                               /\ ~IsClear(j) \/ Mut = "clear"
                               /\ Mut = "alpha" => px[j][2] = px[i][2]}
Look ==
  /\ i <= N /\ i' = i + 1
  /\ IF i \notin m
     THEN /\ map' = [map EXCEPT ![i] = -1]
          /\ clear' = (clear \/ (Mut = "hidden" /\ IsClear(i)))
          /\ UNCHANGED <<pts, wt>>
     ELSE IF IsClear(i)
     THEN /\ map' = [map EXCEPT ![i] = -1] /\ clear' = TRUE /\ UNCHANGED <<pts, wt>>
     ELSE IF Earlier = {}
     THEN /\ pts' = Append(pts, px[i][1]) /\ wt' = Append(wt, Weight(i))
          /\ map' = [map EXCEPT ![i] = Len(pts) + 1] /\ UNCHANGED clear
     ELSE LET j == CHOOSE j \in Earlier : \A k \in Earlier : j <= k
          IN  /\ map' = [map EXCEPT ![i] = map[j]]
              /\ wt' = IF Mut = "merge" \/ map[j] <= 0 THEN wt ELSE [wt EXCEPT ![map[j]] = @ + Weight(i)]
              /\ UNCHANGED <<pts, clear>>
  /\ UNCHANGED <<px, m, bc1, aw>>
Next == Look
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == i > N
Vis == {p \in m : ~(bc1 /\ px[p][2] < 128)}

Distinct == Done => /\ {pts[k] : k \in 1..Len(pts)} = {px[p][1] : p \in Vis}
                    /\ \A k, l \in 1..Len(pts) : k # l => pts[k] # pts[l]
Mapped == Done => \A p \in P : IF p \in Vis THEN map[p] \in 1..Len(pts) /\ pts[map[p]] = px[p][1]
                               ELSE map[p] = -1
Weighed == Done => \A k \in 1..Len(pts) :
             wt[k] = MapThenSumSet(LAMBDA p : IF aw THEN px[p][2] + 1 ELSE 1,
                                   {p \in Vis : px[p][1] = pts[k]})
Positive == Done => \A k \in 1..Len(wt) : wt[k] > 0
ClearIff == Done => (clear <=> \E p \in m : bc1 /\ px[p][2] < 128)
\* C08: what the set is depends only on what the format stores
\* (two runs differing in hidden pixels meet in the state that forgets them)
Stored == Done =>
  LET firsts == {p \in Vis : \A q \in Vis : px[q][1] = px[p][1] => p <= q}
      place(p) == Cardinality({q \in firsts : q <= p})
  IN  \A p \in firsts : map[p] = place(p)
=============================================================================
