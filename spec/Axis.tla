-------------------------------- MODULE Axis --------------------------------
(***************************************************************************)
(* The principal axis by power iteration, for any covariance (C10 to C13). *)
(*                                                                         *)
(* In the limit, power iteration turns a start vector into the eigenvector *)
(* of the greatest eigenvalue it has a component along.  It starts from    *)
(* grey and from each row of the matrix, and the axis with the greatest    *)
(* variance is kept.  The eigenvectors here are all triples of orthogonal  *)
(* vectors of small integers, so components are exact.  AxisSteps.tla      *)
(* looks at what a limited number of steps leaves.                         *)
(*                                                                         *)
(* Mut names a deviation TLC must reject:                                  *)
(*   grey     the iteration starts at grey only                            *)
(*   null     rows are tried only if grey is in the null space             *)
(*   quarter  rows are tried only if grey's axis has less than a quarter   *)
(*            of all variance                                              *)
(*   first    of the rows only the first is tried                          *)
(*   largest  of the rows only that of the largest variance is tried       *)
(*   latest   the last row's axis is taken and not the best                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Size, Top, Mut
VARIABLES u, lam, at, axis
vars == <<u, lam, at, axis>>

Vecs == {v \in (-Size..Size) \X (-Size..Size) \X (-Size..Size) :
           /\ v # <<0, 0, 0>>
           /\ LET k == Min({i \in 1..3 : v[i] # 0}) IN v[k] > 0}
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3]
None == 0
Trace == lam[1] + lam[2] + lam[3]

Init ==
  /\ \E p \in Vecs : \E q \in {v \in Vecs : Dot(p, v) = 0} :
       \E r \in {v \in Vecs : Dot(p, v) = 0 /\ Dot(q, v) = 0} : u = <<p, q, r>>
  /\ \E a \in 1..Top : \E b \in 0..(a - 1) : \E c \in 0..b : lam = <<a, b, c>>
  /\ at = "start" /\ axis = None

\* which eigenvector a start vector of the given components leads to
Limit(comp) == LET I == {i \in 1..3 : lam[i] > 0 /\ comp[i] # 0}
               IN  IF I = {} THEN None ELSE Min(I)
FromGrey == Limit([i \in 1..3 |-> Dot(u[i], <<1, 1, 1>>)])
\* row k of the matrix: component along u[i] is lam[i] * u[i][k]
FromRow(k) == Limit([i \in 1..3 |-> lam[i] * u[i][k]])
Variance(i) == IF i = None THEN -1 ELSE lam[i]

\* diagonal of the matrix, times |u1|^2 |u2|^2 |u3|^2
Norm(i) == Dot(u[i], u[i])
Diag(k) == lam[1] * u[1][k] * u[1][k] * Norm(2) * Norm(3)
         + lam[2] * u[2][k] * u[2][k] * Norm(1) * Norm(3)
         + lam[3] * u[3][k] * u[3][k] * Norm(1) * Norm(2)
Rows == CASE Mut = "first" -> {1}
          [] Mut = "largest" -> {CHOOSE k \in 1..3 : \A j \in 1..3 : Diag(k) >= Diag(j)}
          [] OTHER -> 1..3

GoodEnough(i) == CASE Mut = "grey" -> TRUE
                   [] Mut = "null" -> i # None
                   [] Mut = "quarter" -> i # None /\ 4 * lam[i] >= Trace
                   [] OTHER -> FALSE
Start ==
  /\ at = "start" /\ axis' = FromGrey
  /\ at' = IF GoodEnough(FromGrey) THEN "done" ELSE "rows"
  /\ UNCHANGED <<u, lam>>
TryRows ==
  /\ at = "rows" /\ at' = "done"
  /\ LET C == {axis} \cup {FromRow(k) : k \in Rows}
     IN  axis' = IF Mut = "latest" THEN FromRow(3)
                 ELSE CHOOSE i \in C : \A j \in C : Variance(i) >= Variance(j)
  /\ UNCHANGED <<u, lam>>
Next == Start \/ TryRows
Spec == Init /\ [][Next]_vars

Principal == at = "done" => axis = 1
=============================================================================
