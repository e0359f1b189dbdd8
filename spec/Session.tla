------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Clients calling the library concurrently, each call split into rows     *)
(* that a shared pool of workers processes in any order (C04; completion   *)
(* also C21).                                                              *)
(*                                                                         *)
(* An argument is <<pixels, parameters>>; what a row of a call gives is a  *)
(* function of the call's arguments and the row, here the tuple itself.    *)
(* Mut names a deviation TLC must reject:                                  *)
(*   scratch   workers share the block they gather into                    *)
(*   memo      results remembered for the same pixels, whatever parameters *)
(*   carry     a worker's last result seeds its next                       *)
(*   arrival   rows stored in the order in which they were finished        *)
(*   early     a call returns while its last row is still being worked on  *)
(*   lost      a worker that finds no work left never looks again          *)
(* A call may also be refused: the last row of one whose pixels are bad    *)
(* (its buffers are too short) is abandoned by a panic.  Deviations here:  *)
(*   lock      one call at a time, the lock not released by a refused one  *)
(*   abandon   a refused call returns while other rows are being worked on *)
(*   dirty     the worker keeps what it had gathered and stores it next    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, Workers, Calls, \* how many calls each client makes
          RowCount, Mut,
          Kinds                  \* number of distinct calls, in generated schedules

Bad == <<"bad", "q1">>
Args == {<<p, q>> : p \in {"p1", "p2"}, q \in {"q1", "q2"}} \cup {Bad}
None == <<"-", "-">>
Rows == 1..RowCount
Gives(a, r) == <<a, r>>

VARIABLES made,      \* client -> calls made so far
          cur,       \* client -> arguments of the call in progress
          left,      \* client -> rows nobody has taken
          out,       \* client -> rows stored so far: row -> result
          ret,       \* client -> <<arguments, output>> of its last finished call
          job,       \* worker -> [c, r, at, got]
          scratch,   \* the mutant's shared block
          memo,      \* the mutant's cache: pixels -> result of a row
          asleep,    \* the mutant's sleeping workers
          failed,    \* clients whose call in progress has panicked
          held       \* the mutant's lock: the client that holds it
vars == <<made, cur, left, out, ret, job, scratch, memo, asleep, failed, held>>

NoJob == [c |-> 0, r |-> 0, at |-> "free", got |-> <<None, 0>>]

Init ==
  /\ made = [c \in Clients |-> 0] /\ cur = [c \in Clients |-> None]
  /\ left = [c \in Clients |-> {}] /\ out = [c \in Clients |-> <<>>]
  /\ ret = [c \in Clients |-> <<None, <<>>>>]
  /\ job = [w \in Workers |-> NoJob] /\ scratch = <<None, 0>>
  /\ memo = <<>> /\ asleep = {} /\ failed = {} /\ held = 0

Submit(c) ==
  /\ cur[c] = None /\ made[c] < Calls
  /\ Mut = "lock" => held = 0
  /\ held' = (IF Mut = "lock" THEN c ELSE 0)
  /\ \E a \in Args : cur' = [cur EXCEPT ![c] = a]
  /\ made' = [made EXCEPT ![c] = @ + 1]
  /\ left' = [left EXCEPT ![c] = Rows] /\ out' = [out EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<ret, job, scratch, memo, asleep, failed>>

Take(w) ==
  /\ job[w].at = "free" /\ w \notin asleep
  /\ \E c \in Clients : \E r \in left[c] :
       /\ left' = [left EXCEPT ![c] = @ \ {r}]
       /\ job' = [job EXCEPT ![w] = [@ EXCEPT !.c = c, !.r = r, !.at = "gather"]]
  /\ UNCHANGED <<made, cur, out, ret, scratch, memo, asleep, failed, held>>

Sleep(w) ==
  /\ Mut = "lost" /\ job[w].at = "free" /\ \A c \in Clients : left[c] = {}
  /\ asleep' = asleep \cup {w}
  /\ UNCHANGED <<made, cur, left, out, ret, job, scratch, memo, failed, held>>

Panics(w) == cur[job[w].c] = Bad /\ job[w].r = RowCount

\* the row panics; rows nobody has taken are dropped
Fault(w) ==
  /\ job[w].at = "gather" /\ Panics(w)
  /\ LET c == job[w].c
     IN  /\ failed' = failed \cup {c}
         /\ left' = [left EXCEPT ![c] = {}]
         /\ job' = [job EXCEPT ![w] = [NoJob EXCEPT !.got = IF Mut = "dirty" THEN Gives(cur[c], RowCount) ELSE @]]
  /\ UNCHANGED <<made, cur, out, ret, scratch, memo, asleep, held>>

Gather(w) ==
  /\ job[w].at = "gather" /\ ~Panics(w)
  /\ LET g == Gives(cur[job[w].c], job[w].r)
     IN  /\ scratch' = (IF Mut = "scratch" THEN g ELSE scratch)
         /\ job' = [job EXCEPT ![w] =
              [@ EXCEPT !.at = "store",
                        !.got = IF Mut = "dirty" /\ @ # <<None, 0>> THEN @
                                ELSE IF Mut = "carry" /\ @[1] # None /\ @[1][1] = g[1][1] /\ @[2] = g[2]
                                THEN @ ELSE g]]
  /\ UNCHANGED <<made, cur, left, out, ret, memo, asleep, failed, held>>

Value(w) ==
  LET g == job[w].got  key == <<g[1][1], g[2]>>
  IN  CASE Mut = "scratch" -> scratch
        [] Mut = "memo" /\ key \in DOMAIN memo -> memo[key]
        [] OTHER -> g

Store(w) ==
  /\ job[w].at = "store"
  /\ LET c == job[w].c
         pos == IF Mut = "arrival" THEN Cardinality(DOMAIN out[c]) + 1 ELSE job[w].r
     IN  out' = [out EXCEPT ![c] = (pos :> Value(w)) @@ @]
  /\ LET g == job[w].got  key == <<g[1][1], g[2]>>
     IN  memo' = IF Mut = "memo" /\ key \notin DOMAIN memo THEN (key :> g) @@ memo ELSE memo
  /\ job' = [job EXCEPT ![w].at = "free", ![w].c = 0, ![w].r = 0,
                        ![w].got = IF Mut = "carry" THEN @ ELSE <<None, 0>>]
  /\ UNCHANGED <<made, cur, left, ret, scratch, asleep, failed, held>>

Complete(c) == Mut = "early" \/ Cardinality(DOMAIN out[c]) = RowCount

Return(c) ==
  /\ cur[c] # None /\ left[c] = {} /\ c \notin failed /\ Complete(c)
  /\ ret' = [ret EXCEPT ![c] = <<cur[c], out[c]>>]
  /\ cur' = [cur EXCEPT ![c] = None] /\ held' = 0
  /\ UNCHANGED <<made, left, out, job, scratch, memo, asleep, failed>>

\* the panic reaches the caller once no worker is at this call any more
Refuse(c) ==
  /\ c \in failed /\ (Mut = "abandon" \/ \A w \in Workers : job[w].c # c)
  /\ ret' = [ret EXCEPT ![c] = <<cur[c], <<>>>>]
  /\ cur' = [cur EXCEPT ![c] = None]
  /\ failed' = failed \ {c}
  /\ UNCHANGED <<made, left, out, job, scratch, memo, asleep, held>>

Next == \/ \E c \in Clients : Submit(c) \/ Return(c) \/ Refuse(c)
        \/ \E w \in Workers : Take(w) \/ Gather(w) \/ Fault(w) \/ Store(w) \/ Sleep(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* C04: what a call returned is the function of its arguments
Pure == \A c \in Clients : ret[c][1] # None =>
          ret[c][2] = IF ret[c][1] = Bad THEN <<>> ELSE [r \in Rows |-> Gives(ret[c][1], r)]

\* C21: every call returns
Completes == <>(\A c \in Clients : made[c] = Calls /\ cur[c] = None)

Symmetry == Permutations(Workers) \cup Permutations(Clients)
=============================================================================
