----------------------------- MODULE ImageModel -----------------------------
(***************************************************************************)
(* How the image calls walk an image (C02, C03, C16, C21): rows of blocks  *)
(* handed to workers in any order, one block gathered, encoded and stored  *)
(* at a time, in output buffers with any excess.                           *)
(*                                                                         *)
(* Pixels and texels are symbolic: pixel (x, y) of the image is <<x, y>>;  *)
(* a block encodes to the pairs <<position, pixel>> it was given as valid; *)
(* texel i of stored block n is <<n, i>>.  Output positions are block      *)
(* bytes (compress, BS per block) or pixels (decompress).                  *)
(*                                                                         *)
(* Mut names a deviation TLC must reject:                                  *)
(*   nomask       the edge block's mask is full                            *)
(*   stale        the encoder looks at pixels outside the mask             *)
(*   shared       all workers gather into one block                        *)
(*   notake       excess output is taken for more rows                     *)
(*   noguard      decompress does not compare rows with the height         *)
(*   nozero       no early return for images of width zero                 *)
(*   floor        block columns are counted by rounding down               *)
(*   noassert     a short output is not refused at once                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS MaxW, MaxH, Workers, BS, Mut

Excess == {-1, 0, 1, 5}   \* output bytes more than needed

VARIABLES op, w, h, len,    \* the call; len is the length of its output
          out,              \* output position -> value
          todo,             \* rows nobody has taken
          run,              \* worker -> what it is doing
          blk,              \* worker -> its 4x4 block: position -> pixel (compress)
          writes,           \* output position -> number of times written
          panic             \* "no", or why
vars == <<op, w, h, len, out, todo, run, blk, writes, panic>>

Pix == 0..15
Min2(a, b) == IF a < b THEN a ELSE b
Ceil4(n) == (n + 3) \div 4
BW == IF Mut = "floor" THEN w \div 4 ELSE Ceil4(w)
BH == Ceil4(h)

Need(o, a, b) == IF o = "compress" THEN Ceil4(a) * Ceil4(b) * BS ELSE a * b

Idle == [at |-> "idle", row |-> 0, x |-> 0]
Fill == <<"fill">>       \* what the output held before
Blank == [i \in Pix |-> <<-1, -1>>]
Scratch(k) == IF Mut = "shared" THEN 1 ELSE k

\* rows of an output of length n cut into chunks of size c
Chunks(n, c) == IF c = 0 THEN 0 ELSE (n + c - 1) \div c
RowSize == IF op = "compress" THEN BW * BS ELSE 4 * w

Init ==
  /\ op \in {"compress", "decompress"}
  /\ w \in 0..MaxW /\ h \in 0..MaxH
  /\ \E e \in Excess : len = Need(op, w, h) + e /\ len >= 0
  /\ out = [p \in 0..(len - 1) |-> Fill]
  /\ writes = [p \in 0..(len - 1) |-> 0]
  /\ todo = {-1}                               \* not yet started
  /\ run = [k \in 1..Workers |-> Idle]
  /\ blk = [k \in 1..Workers |-> Blank]
  /\ panic = "no"

Rows == IF Mut = "notake" THEN Chunks(len, RowSize)
        ELSE Min2(BH, Chunks(len, RowSize))

Start ==
  /\ todo = {-1}
  /\ IF op = "compress" /\ Mut # "noassert" /\ len < Need(op, w, h)
     THEN panic' = "refused" /\ todo' = {}
     ELSE IF BW = 0 /\ Mut # "nozero" THEN todo' = {} /\ UNCHANGED panic
     ELSE IF RowSize = 0 THEN panic' = "chunk size" /\ todo' = {}
     ELSE todo' = 0..(Rows - 1) /\ UNCHANGED panic
  /\ UNCHANGED <<op, w, h, len, out, run, blk, writes>>

Take(k) ==
  /\ panic = "no" /\ run[k].at = "idle"
  /\ \E y \in todo \ {-1} :
       /\ todo' = todo \ {y}
       /\ run' = [run EXCEPT ![k] = [at |-> "gather", row |-> y, x |-> 0]]
       /\ blk' = [blk EXCEPT ![Scratch(k)] = Blank]
  /\ UNCHANGED <<op, w, h, len, out, writes, panic>>

\* blocks in the worker's chunk of the output (compress) or image row (decompress)
Cols(y) == IF op = "compress"
           THEN (Min2(len, (y + 1) * RowSize) - y * RowSize + BS - 1) \div BS
           ELSE BW

Inside(x, y, i) == 4*x + (i % 4) < w /\ 4*y + (i \div 4) < h
Px(x, y, i) == <<4*x + (i % 4), 4*y + (i \div 4)>>

Gather(k) ==
  /\ panic = "no" /\ run[k].at = "gather"
  /\ LET y == run[k].row  x == run[k].x IN
     IF x >= Cols(y) THEN run' = [run EXCEPT ![k] = Idle] /\ UNCHANGED blk
     ELSE /\ run' = [run EXCEPT ![k].at = "store"]
          /\ blk' = [blk EXCEPT ![Scratch(k)] =
                       [i \in Pix |-> IF Inside(x, y, i) THEN Px(x, y, i) ELSE @[i]]]
  /\ UNCHANGED <<op, w, h, len, out, todo, writes, panic>>

Mask(x, y) == IF Mut = "nomask" THEN Pix ELSE {i \in Pix : Inside(x, y, i)}

Encoded(b, m) == [m |-> m, v |-> IF Mut = "stale" THEN b ELSE [i \in m |-> b[i]]]

Put(P, V(_)) ==           \* write V(p) at every position p of P
  /\ out' = [p \in DOMAIN out |-> IF p \in P THEN V(p) ELSE out[p]]
  /\ writes' = [p \in DOMAIN out |-> IF p \in P THEN writes[p] + 1 ELSE writes[p]]

Step(k) == run' = [run EXCEPT ![k] = [at |-> "gather", row |-> run[k].row, x |-> run[k].x + 1]]

StoreBlock(k) ==
  /\ panic = "no" /\ run[k].at = "store" /\ op = "compress"
  /\ LET y == run[k].row  x == run[k].x
         from == y * RowSize + x * BS
         P == from..(from + BS - 1)
     IN  IF ~(P \subseteq DOMAIN out)
         THEN panic' = "output" /\ UNCHANGED <<out, writes, run>>
         ELSE /\ Put(P, LAMBDA p : <<p - from, Encoded(blk[Scratch(k)], Mask(x, y))>>)
              /\ Step(k) /\ UNCHANGED panic
  /\ UNCHANGED <<op, w, h, len, todo, blk>>

StoreTexels(k) ==
  /\ panic = "no" /\ run[k].at = "store" /\ op = "decompress"
  /\ LET y == run[k].row  x == run[k].x
         n == y * BW + x
         I == {i \in Pix : 4*x + (i % 4) < w /\ (Mut = "noguard" \/ 4*y + (i \div 4) < h)}
         At(i) == y * RowSize + (4*x + (i % 4)) + (i \div 4) * w
         Texel(p) == CHOOSE i \in I : At(i) = p
     IN  IF n >= Ceil4(w) * BH
         THEN panic' = "input" /\ UNCHANGED <<out, writes, run>>
         ELSE IF \E i \in I : At(i) \notin DOMAIN out
         THEN panic' = "output" /\ UNCHANGED <<out, writes, run>>
         ELSE /\ Put({At(i) : i \in I}, LAMBDA p : <<n, Texel(p)>>)
              /\ Step(k) /\ UNCHANGED panic
  /\ UNCHANGED <<op, w, h, len, todo, blk>>

Next == Start \/ \E k \in 1..Workers : Take(k) \/ Gather(k) \/ StoreBlock(k) \/ StoreTexels(k)
Spec == Init /\ [][Next]_vars

Over == todo = {} /\ \A k \in 1..Workers : run[k].at = "idle"
Short == len < Need(op, w, h)

---------------------------------------------------------------------------
\* what is owed

\* C03: block n = y * bw + x at n * BS
Owed(p) ==
  IF op = "compress"
  THEN LET n == p \div BS
           x == n % Ceil4(w)  y == n \div Ceil4(w)
           m == {i \in Pix : Inside(x, y, i)}
       IN  <<p % BS, [m |-> m, v |-> [i \in m |-> Px(x, y, i)]]>>
  ELSE LET x == p % w  y == p \div w
       IN  <<(y \div 4) * Ceil4(w) + (x \div 4), 4 * (y % 4) + (x % 4)>>

Right ==
  (Over /\ panic = "no" /\ ~Short) =>
    \A p \in 0..(len - 1) : out[p] = IF p < Need(op, w, h) THEN Owed(p) ELSE Fill

ExcessUntouched == \A p \in 0..(len - 1) : p >= Need(op, w, h) => writes[p] = 0
WrittenOnce == \A p \in 0..(len - 1) : writes[p] <= 1
\* C16: a short output is refused before anything is written to it
Refused == (Short /\ op = "compress") =>
             /\ \A p \in 0..(len - 1) : writes[p] = 0
             /\ Over => panic = "refused"
\* C21
NoPanic == ~Short => panic = "no"

Symmetric == Permutations(1..Workers)
=============================================================================
