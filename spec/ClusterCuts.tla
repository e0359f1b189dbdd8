---------------------------- MODULE ClusterCuts -----------------------------
(***************************************************************************)
(* How cluster fit enumerates the cuts of an ordering into consecutive     *)
(* clusters, keeping running sums of what is in each (C12: every cut that  *)
(* can be solved is tried, with the right sums; C21: no index past the     *)
(* end, and the search ends).                                              *)
(*                                                                         *)
(* The points of the ordering are 1..n; a sum is the set of points it has  *)
(* taken in with the number of times.  Cut(i,j,k): cluster 1 is the first  *)
(* i points, 2 up to j, 3 up to k, 4 the rest (three colours: k = n).      *)
(* Mut names a deviation TLC must reject:                                  *)
(*   skip    the last cluster is never empty                               *)
(*   stale2, stale1  a sum is not reset for the next round                 *)
(*   first   a cut that starts with k = 1 starts with an empty sum         *)
(*   bound   the sums advance past the last point                          *)
(*   lag     the first sum advances before the round, not after            *)
(*   from0   the second cut starts over at 0                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, Mut
VARIABLES n, mode, i, j, k, at,
          s0, s1, s2,            \* running sums, as bags over 1..n
          tried, fault
vars == <<n, mode, i, j, k, at, s0, s1, s2, tried, fault>>

Zero == [p \in 1..MaxN |-> 0]
One(p) == [Zero EXCEPT ![p] = 1]
Plus(a, p) == IF p > MaxN THEN a ELSE [a EXCEPT ![p] = @ + 1]
Range01(lo, hi) == [p \in 1..MaxN |-> IF lo < p /\ p <= hi THEN 1 ELSE 0]
Last == IF Mut = "skip" THEN n - 1 ELSE n

Init ==
  /\ n \in 2..MaxN /\ mode \in {3, 4}
  /\ i = 0 /\ j = 0 /\ k = 0 /\ at = "i"
  /\ s0 = Zero /\ s1 = Zero /\ s2 = Zero /\ tried = {} /\ fault = ""

Advance(s, p, x) ==    \* add the (0-based) p-th point of the ordering to a sum
  IF p < n THEN x = Plus(s, p + 1)
  ELSE IF Mut = "bound" THEN x = s ELSE x = s

LoopI ==
  /\ at = "i"
  /\ IF i = n THEN at' = "end" /\ UNCHANGED <<i, j, k, s0, s1, s2, tried, fault>>
     ELSE IF mode = 4
     THEN /\ j' = (IF Mut = "from0" THEN 0 ELSE i)
          /\ s1' = (IF Mut = "stale1" THEN s1 ELSE Zero)
          /\ s0' = (IF Mut = "lag" THEN Plus(s0, i + 1) ELSE s0)
          /\ at' = "j" /\ UNCHANGED <<i, k, s2, tried, fault>>
     ELSE \* three colours: the middle cluster is s1, from i (or 1) on
          /\ j' = (IF i = 0 THEN 1 ELSE IF Mut = "from0" THEN 1 ELSE i)
          /\ s1' = (IF i = 0 /\ Mut # "first" THEN One(1) ELSE IF Mut = "stale1" THEN s1 ELSE Zero)
          /\ s0' = (IF Mut = "lag" THEN Plus(s0, i + 1) ELSE s0)
          /\ at' = "try3" /\ UNCHANGED <<i, k, s2, tried, fault>>
  /\ UNCHANGED <<n, mode>>

NextI == /\ i' = i + 1 /\ at' = "i"
         /\ s0' = (IF Mut = "lag" THEN s0 ELSE Plus(s0, i + 1))

Try3 ==
  /\ at = "try3"
  /\ IF j > Last THEN NextI /\ UNCHANGED <<j, s1, tried, fault>>
     ELSE /\ tried' = tried \cup {[i |-> i, j |-> j, k |-> n, s0 |-> s0, s1 |-> s1, s2 |-> Zero]}
          /\ IF j < n \/ Mut = "bound"
             THEN /\ fault' = (IF j >= 16 \/ (Mut = "bound" /\ j = n) THEN "index" ELSE fault)
                  /\ s1' = Plus(s1, j + 1)
             ELSE UNCHANGED <<s1, fault>>
          /\ j' = j + 1 /\ at' = "try3" /\ UNCHANGED <<i, s0>>
  /\ UNCHANGED <<n, mode, k, s2>>

LoopJ ==
  /\ at = "j"
  /\ IF j > n THEN NextI /\ UNCHANGED <<k, s2>>
     ELSE /\ k' = (IF j = 0 THEN 1 ELSE j)
          /\ s2' = (IF j = 0 /\ Mut # "first" THEN One(1) ELSE IF Mut = "stale2" THEN s2 ELSE Zero)
          /\ at' = "try4" /\ UNCHANGED <<i, s0>>
  /\ UNCHANGED <<n, mode, j, s1, tried, fault>>

Try4 ==
  /\ at = "try4"
  /\ IF k > Last
     THEN /\ j' = j + 1 /\ at' = "j"
          /\ IF j < n \/ Mut = "bound"
             THEN /\ s1' = Plus(s1, j + 1)
                  /\ fault' = (IF Mut = "bound" /\ j = n THEN "index" ELSE fault)
             ELSE UNCHANGED <<s1, fault>>
          /\ UNCHANGED <<k, s2, tried>>
     ELSE /\ tried' = tried \cup {[i |-> i, j |-> j, k |-> k, s0 |-> s0, s1 |-> s1, s2 |-> s2]}
          /\ IF k < n THEN s2' = Plus(s2, k + 1) ELSE UNCHANGED s2
          /\ k' = k + 1 /\ UNCHANGED <<j, at, s1, fault>>
  /\ UNCHANGED <<n, mode, i, s0>>

Next == LoopI \/ Try3 \/ LoopJ \/ Try4
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* the sums are those of the cut
Sums == \A t \in tried :
  /\ t.s0 = Range01(0, t.i) /\ t.s1 = Range01(t.i, t.j)
  /\ mode = 4 => t.s2 = Range01(t.j, t.k)

\* cuts whose normal equations can be solved: at least two clusters are not empty
Solvable(a, b, c) == Cardinality({x \in {<<1, a>>, <<2, b - a>>, <<3, c - b>>, <<4, n - c>>} : x[2] > 0}) > 1
Complete == at = "end" =>
  \A a \in 0..n : \A b \in a..n : \A c \in (IF mode = 4 THEN b..n ELSE {n}) :
    LET two == IF mode = 4 THEN Solvable(a, b, c)
               ELSE Cardinality({x \in {<<1, a>>, <<2, b - a>>, <<3, n - b>>} : x[2] > 0}) > 1
    IN  two => \E t \in tried : t.i = a /\ t.j = b /\ t.k = c
\* ascending cuts only
Ascending == \A t \in tried : 0 <= t.i /\ t.i <= t.j /\ t.j <= t.k /\ t.k <= n
NoFault == fault = ""
Ends == <>(at = "end")
=============================================================================
