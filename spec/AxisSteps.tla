----------------------------- MODULE AxisSteps -----------------------------
(***************************************************************************)
(* The principal axis by few steps of power iteration with rounding errors *)
(* (C10 to C13).                                                           *)
(*                                                                         *)
(* A vector is kept as its components along the eigenvectors, which a step *)
(* multiplies by the eigenvalues.  A component that should be zero may be  *)
(* a rounding error instead; so much smaller than the others that, were it *)
(* along the principal axis, the steps at hand grow it to about the size   *)
(* of the others and not far beyond.  That is scaled down: a single step   *)
(* and errors of 1/Unit stand for eight and 10^-7.                         *)
(*                                                                         *)
(* Where the variance along the axis is five times that across it, the     *)
(* result must be close to the axis.                                       *)
(*                                                                         *)
(* Mut names a deviation TLC must reject:                                  *)
(*   grey     the iteration starts at grey only                            *)
(*   half     rows are tried only if grey's axis has less than half of     *)
(*            all variance                                                 *)
(*   first    of the rows only the first is tried                          *)
(*   last     the candidate tried last wins                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Size, Top, Unit, Mut
VARIABLES u, lam, err, at, v, best
vars == <<u, lam, err, at, v, best>>

Vecs == {p \in (-Size..Size) \X (-Size..Size) \X (-Size..Size) :
           /\ p # <<0, 0, 0>>
           /\ LET k == Min({i \in 1..3 : p[i] # 0}) IN p[k] > 0}
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
Norm(i) == Dot(u[i], u[i])
Lcm == CHOOSE n \in 1..(Norm(1) * Norm(2) * Norm(3)) :
         /\ \A i \in 1..3 : n % Norm(i) = 0
         /\ \A m \in 1..(n - 1) : \E i \in 1..3 : m % Norm(i) # 0
None == <<0, 0, 0>>
Grey == <<1, 1, 1>>

Init ==
  /\ \E p \in Vecs : \E q \in {x \in Vecs : Dot(p, x) = 0} :
       \E r \in {x \in Vecs : Dot(p, x) = 0 /\ Dot(q, x) = 0} : u = <<p, q, r>>
  /\ \E a \in 1..Top : \E b \in 0..(a \div 5) : \E c \in 0..b : lam = <<a, b, c>>
  /\ err \in {-1, 0, 1}
  /\ at = 0 /\ v = None /\ best = None

\* components of grey times Unit * Lcm, rounding errors included
FromGrey == [i \in 1..3 |-> LET d == Dot(u[i], Grey)
                            IN  IF d = 0 THEN err * (Lcm \div Norm(i)) ELSE Unit * d * (Lcm \div Norm(i))]
\* row k of the matrix; its length does not matter
FromRow(k) == [i \in 1..3 |-> lam[i] * u[i][k]]
Step(x) == [i \in 1..3 |-> lam[i] * x[i]]

Length2(x) == x[1]*x[1]*Norm(1) + x[2]*x[2]*Norm(2) + x[3]*x[3]*Norm(3)
Product(x) == lam[1]*x[1]*x[1]*Norm(1) + lam[2]*x[2]*x[2]*Norm(2) + lam[3]*x[3]*x[3]*Norm(3)

\* a / b > c / d without products
RECURSIVE Greater(_, _, _, _)
Greater(a, b, c, d) ==
  LET p == a \div b  q == c \div d  r == a % b  s == c % d
  IN  IF p # q THEN p > q ELSE IF r = 0 THEN FALSE ELSE IF s = 0 THEN TRUE
      ELSE Greater(d, s, b, r)
MoreVariance(x, y) == y = None \/ (x # None /\ Greater(Product(x), Length2(x), Product(y), Length2(y)))

Rows == IF Mut = "first" THEN {1} ELSE 1..3
Half(x) == x # None /\ 2 * Product(x) >= (lam[1] + lam[2] + lam[3]) * Length2(x)

TryGrey ==
  /\ at = 0 /\ v' = Step(FromGrey) /\ best' = v'
  /\ at' = IF Mut = "grey" \/ (Mut = "half" /\ Half(v')) THEN 4 ELSE 1
  /\ UNCHANGED <<u, lam, err>>
TryRow ==
  /\ at \in 1..3 /\ v' = Step(FromRow(at))
  /\ best' = IF at \in Rows /\ (Mut = "last" \/ MoreVariance(v', best)) THEN v' ELSE best
  /\ at' = at + 1
  /\ UNCHANGED <<u, lam, err>>
Next == TryGrey \/ TryRow
Spec == Init /\ [][Next]_vars

\* Grey has a component along every axis of this grid it is not orthogonal to, of a third of its
\* square at least; a step leaves 2 * (1/5)^2 = 0.08 of the square of the tangent.  The row with
\* the largest part along the axis does better, and another candidate can have more variance
\* only if it is off by at most a quarter more.
Close == at = 4 =>
  /\ best # None
  /\ 10 * (best[2]*best[2]*Norm(2) + best[3]*best[3]*Norm(3)) <= best[1]*best[1]*Norm(1)
=============================================================================
