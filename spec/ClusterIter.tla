---------------------------- MODULE ClusterIter -----------------------------
(***************************************************************************)
(* The bookkeeping of (iterative) cluster fit: orderings are tried one     *)
(* after the other, each along the axis of the best fit so far, until one  *)
(* repeats, does not improve or the limit is reached; BC1 does this for    *)
(* three and for four colours (C13; C12's best of all that was tried;      *)
(* C21: it ends).                                                          *)
(*                                                                         *)
(* What an ordering gives is arbitrary: any error per mode and ordering,   *)
(* any next ordering.  The plain fit is the first round alone.             *)
(* Mut names a deviation TLC must reject:                                  *)
(*   reset    each round starts with a fresh best error                    *)
(*   last     the indices are written along the last ordering tried        *)
(*   latest   a round replaces the best even if it is worse                *)
(*   unsaved  the second mode replaces the first even if it is worse       *)
(*   endless  no limit, and no test for orderings that repeat              *)
(*   skip0    the first round is only taken as the start for the second    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Orders,        \* the orderings there are
          MaxErr, Limit, Mut
VARIABLES err,           \* mode -> ordering -> error of its best cut
          iterate, bc1, clear,
          modes,         \* modes still to do
          round, cur,    \* round in this mode, ordering to try next
          seen,          \* orderings tried in this mode
          best,          \* [e, o]: of this mode (and those before it)
          improved,      \* round of this mode in which best was found, or -1
          saved          \* what the block holds: [e (claimed), m, o (written along), of (of the fit)]
vars == <<err, iterate, bc1, clear, modes, round, cur, seen, best, improved, saved>>

Inf == MaxErr + 1
NoFit == [e |-> Inf, m |-> 0, o |-> 0, of |-> 0]

Init ==
  /\ err \in [{3, 4} -> [Orders -> 0..MaxErr]]
  /\ iterate \in BOOLEAN /\ bc1 \in BOOLEAN /\ clear \in BOOLEAN
  /\ clear => bc1
  /\ modes = (IF ~bc1 THEN <<4>> ELSE IF clear THEN <<3>> ELSE <<3, 4>>)
  /\ round = 0 /\ cur = 1 /\ seen = <<>>
  /\ best = [e |-> Inf, o |-> 0] /\ improved = 0 /\ saved = NoFit

M == Head(modes)
Limited == IF Mut = "endless" /\ iterate THEN FALSE
           ELSE round = (IF iterate THEN Limit ELSE 1)

Finish ==
  /\ modes' = Tail(modes)
  /\ saved' = IF best.e < saved.e \/ Mut = "unsaved"
              THEN [e |-> best.e, m |-> M, of |-> best.o,
                    o |-> IF Mut = "last" /\ seen # <<>> THEN seen[Len(seen)] ELSE best.o]
              ELSE saved
  /\ round' = 0 /\ cur' = 1 /\ seen' = <<>> /\ improved' = 0
  \* the next mode starts from the error it has to beat
  /\ best' = [e |-> IF Mut = "unsaved" THEN Inf ELSE saved'.e, o |-> 0]

Repeats == \E r \in 1..Len(seen) : seen[r] = cur
Round ==
  /\ modes # <<>>
  /\ IF Limited \/ (Repeats /\ Mut # "endless") THEN Finish
     ELSE LET e == err[M][cur]
              wins == CASE Mut = "reset" -> TRUE
                        [] Mut = "latest" -> round > 0 \/ e < best.e
                        [] Mut = "skip0" -> IF iterate THEN round = 1 \/ (round > 1 /\ e < best.e) ELSE e < best.e
                        [] OTHER -> e < best.e
          IN  /\ best' = IF wins THEN [e |-> e, o |-> cur] ELSE best
              /\ improved' = IF wins THEN round ELSE improved
              /\ seen' = IF Mut = "endless" THEN <<cur>> ELSE Append(seen, cur)
              /\ IF improved' # round /\ ~(Mut = "skip0" /\ round = 0)
                 THEN round' = Limit + 1 /\ UNCHANGED <<cur, modes, saved>>
                 ELSE /\ round' = (IF Mut = "endless" THEN 0 ELSE round + 1)
                      /\ cur' \in Orders /\ UNCHANGED <<modes, saved>>
  /\ UNCHANGED <<err, iterate, bc1, clear>>
Stopped == modes # <<>> /\ round = Limit + 1 /\ Finish /\ UNCHANGED <<err, iterate, bc1, clear>>
Next == (round # Limit + 1 /\ Round) \/ Stopped
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Done == modes = <<>>
Used == IF ~bc1 THEN {4} ELSE IF clear THEN {3} ELSE {3, 4}
\* the plain fit's error: the first ordering in every mode that may be used
Plain == Min({err[x][1] : x \in Used})

\* C13
NotWorse == Done => saved.e <= Plain
PlainExact == (Done /\ ~iterate) => saved.e = Plain
\* the block is the fit whose error is claimed: that ordering, in that mode
Honest == Done => saved.m \in Used /\ saved.o = saved.of /\ saved.e = err[saved.m][saved.o]
\* C21
Ends == <>Done
=============================================================================
