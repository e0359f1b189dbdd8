------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Evaluates the specification's finite functions once and writes them to  *)
(* a file, against which the implementation is replayed exhaustively:      *)
(*   least   least errors of the uniform colour problem                    *)
(*   ramps   all 65536 interpolated-channel palettes                       *)
(*   third5, third6, half5, half6, expand5, expand6                        *)
(*           all colour palettes, channel by channel                       *)
(***************************************************************************)
EXTENDS Enc, Json, IOUtils

VARIABLE done

Least == [m \in 1..2 |-> [b \in 1..2 |-> [k \in 1..2 |-> LeastError(m + 2, b + 4, k)]]]

Ramps == [n \in 1..65536 |-> Ramp((n - 1) \div 256, (n - 1) % 256)]

Thirds(bits, size) == [n \in 1..(size * size) |->
  LET c == Expand(bits, (n - 1) \div size)  d == Expand(bits, (n - 1) % size)
  IN  (2 * c + d) \div 3]
Halves(bits, size) == [n \in 1..(size * size) |->
  LET c == Expand(bits, (n - 1) \div size)  d == Expand(bits, (n - 1) % size)
  IN  (c + d) \div 2]

Out == [least |-> Least, ramps |-> Ramps,
        third5 |-> Thirds(5, 32), third6 |-> Thirds(6, 64),
        half5 |-> Halves(5, 32), half6 |-> Halves(6, 64),
        expand5 |-> [n \in 1..32 |-> Expand(5, n - 1)],
        expand6 |-> [n \in 1..64 |-> Expand(6, n - 1)]]

Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.TABLES, Out) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
