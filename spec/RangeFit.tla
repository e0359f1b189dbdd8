------------------------------ MODULE RangeFit ------------------------------
(***************************************************************************)
(* Range fit's end points: covariance of the distinct colours, power       *)
(* iteration for the principal axis, extreme colours along it (C10, C11).  *)
(* Exact, on a small grid of colours with small weights: on a line one     *)
(* multiplication already gives the axis, so what matters is where the     *)
(* iteration starts and how the extremes are found.                        *)
(*                                                                         *)
(* Mut names a deviation TLC must reject:                                  *)
(*   grey     the iteration always starts at grey (1, 1, 1)                *)
(*   row      it falls back to the first row, whatever it holds             *)
(*   else     the first colour cannot become the maximum again             *)
(*   origin   the extremes start at zero instead of at a colour            *)
(*   centre   distances from the origin instead of from the average        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Top, N, Mut
VARIABLES pts, wts, at, cov, axis, lo, hi, k
vars == <<pts, wts, at, cov, axis, lo, hi, k>>

Cube == (0..Top) \X (0..Top) \X (0..Top)
Sub(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Cross(p, q) == <<p[2]*q[3] - p[3]*q[2], p[3]*q[1] - p[1]*q[3], p[1]*q[2] - p[2]*q[1]>>
Zero == <<0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x

OnLine(s) == \A i \in 1..Len(s) : Cross(Sub(s[i], s[1]), Sub(s[2], s[1])) = Zero
Init ==
  /\ pts \in UNION {[1..n -> Cube] : n \in 2..N}
  /\ \A i, j \in 1..Len(pts) : i # j => pts[i] # pts[j]
  /\ OnLine(pts)
  /\ wts \in [1..Len(pts) -> {1, 2}]
  /\ at = "cov" /\ cov = <<>> /\ axis = Zero /\ lo = Zero /\ hi = Zero /\ k = 0

Sum(F(_)) == MapThenSumSet(F, 1..Len(pts))
Total == Sum(LAMBDA i : wts[i])
\* Total times the difference to the weighted average
Centred(i) == IF Mut = "centre" THEN pts[i]
              ELSE [c \in 1..3 |-> Total * pts[i][c] - Sum(LAMBDA j : wts[j] * pts[j][c])]
Covariance ==
  /\ at = "cov" /\ at' = "start"
  /\ LET D == TLCEval([i \in 1..Len(pts) |-> Centred(i)])
     IN  cov' = [r \in 1..3 |-> [c \in 1..3 |-> Sum(LAMBDA i : wts[i] * D[i][r] * D[i][c])]]
  /\ UNCHANGED <<pts, wts, axis, lo, hi, k>>

Times(v) == <<Dot(cov[1], v), Dot(cov[2], v), Dot(cov[3], v)>>
\* all rows of these lie on the line (Axis.tla has the general case)
Row == IF Mut = "row" THEN 1 ELSE CHOOSE r \in 1..3 : cov[r] # Zero
StartAxis ==
  /\ at = "start" /\ at' = "power"
  /\ axis' = IF Times(<<1, 1, 1>>) = Zero /\ Mut # "grey" THEN cov[Row] ELSE <<1, 1, 1>>
  /\ UNCHANGED <<pts, wts, cov, lo, hi, k>>

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* reduced to keep the numbers small: the direction is all that counts
Reduce(v) == LET m == Max({Abs(v[c]) : c \in 1..3})
                 g == IF m = 0 THEN 1 ELSE Max({x \in 1..m : \A c \in 1..3 : v[c] % x = 0})
             IN  <<v[1] \div g, v[2] \div g, v[3] \div g>>
Power ==
  /\ at = "power"
  /\ axis' = Reduce(Times(axis))
  /\ at' = "range" /\ k' = 1
  /\ lo' = (IF Mut = "origin" THEN Zero ELSE pts[1])
  /\ hi' = (IF Mut = "origin" THEN Zero ELSE pts[1])
  /\ UNCHANGED <<pts, wts, cov>>

Extremes ==
  /\ at = "range"
  /\ IF k > Len(pts) THEN at' = "done" /\ UNCHANGED <<lo, hi, k>>
     ELSE /\ k' = k + 1 /\ UNCHANGED at
          /\ LET d == Dot(pts[k], axis)
             IN  IF d < Dot(lo, axis) THEN /\ lo' = pts[k]
                                           /\ hi' = (IF Mut = "else" THEN pts[k] ELSE hi)
                 ELSE IF d > Dot(hi, axis) THEN hi' = pts[k] /\ UNCHANGED lo
                 ELSE UNCHANGED <<lo, hi>>
  /\ UNCHANGED <<pts, wts, cov, axis>>
Next == Covariance \/ StartAxis \/ Power \/ Extremes
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Along == Sub(pts[2], pts[1])
Ends == {p \in {pts[i] : i \in 1..Len(pts)} :
           \/ \A i \in 1..Len(pts) : Dot(pts[i], Along) <= Dot(p, Along)
           \/ \A i \in 1..Len(pts) : Dot(pts[i], Along) >= Dot(p, Along)}
AxisOnLine == at \in {"range", "done"} => axis # Zero /\ Cross(axis, Along) = Zero
EndsOfLine == at = "done" => {lo, hi} = Ends
=============================================================================
