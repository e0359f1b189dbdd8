------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* What the clients of Session.tla do, as a schedule for the real library: *)
(* who starts which call when, and who waits for a result before whom.     *)
(* Generated by simulation; the recorder carries the schedule out with a   *)
(* thread per client, and Session!Pure is then judged on what was returned *)
(* (Deterministic in Conf.tla).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Clients, Kinds, Steps, Most

VARIABLES open,     \* client -> calls started and not awaited
          last,     \* the call started last
          hist,     \* <<client, call>>, or <<client, 0>> for waiting
          done
vars == <<open, last, hist, done>>

Init == open = [c \in Clients |-> 0] /\ last = 1 /\ hist = <<>> /\ done = FALSE

Start(c) == /\ open[c] < Most
            /\ \E k \in 1..Kinds :
                 \* often the same call again, or its neighbour, which differs in one argument
                 \E n \in {k, last, (last % Kinds) + 1} :
                   hist' = Append(hist, <<c, n>>) /\ last' = n
            /\ open' = [open EXCEPT ![c] = @ + 1]
Await(c) == /\ open[c] > 0
            /\ open' = [open EXCEPT ![c] = @ - 1]
            /\ hist' = Append(hist, <<c, 0>>) /\ UNCHANGED last
Next == \/ Len(hist) < Steps /\ (\E c \in Clients : Start(c) \/ Await(c)) /\ UNCHANGED done
        \/ Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<open, last, hist>>
Spec == Init /\ [][Next]_vars

Bounded == \A c \in Clients : open[c] \in 0..Most
Emit == done => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
