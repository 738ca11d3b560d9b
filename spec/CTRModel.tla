------------------------------ MODULE CTRModel ------------------------------
(* Why pieces compose: with a counter of two digits base D (low half first), *)
(* encrypting M in pieces with matching start chunks uses the same counter   *)
(* values as encrypting it at once, wrap-around of either half included, and *)
(* no counter value repeats within D*D blocks.                               *)
EXTENDS Integers, Sequences
CONSTANTS D, MaxLen
VARIABLES iv, pos, used
Ctr(v, n) == (v + n) % (D*D)
(* digit-wise addition of a one-digit start chunk, as in the code *)
LowAdd(v, s) == LET lo == (v % D) + s IN
  (((v \div D) + (IF lo >= D THEN 1 ELSE 0)) % D) * D + (lo % D)
Init == iv \in 0..(D*D-1) /\ pos = 0 /\ used = <<>>
(* one call: start chunk pos, n blocks, counter incremented per block *)
Call == \E n \in 1..3 : pos + n <= MaxLen /\ pos < D
   /\ used' = used \o [i \in 1..n |-> Ctr(LowAdd(iv, pos), i-1)]
   /\ pos' = pos + n /\ UNCHANGED iv
Next == Call
AsOne == \A i \in 1..Len(used) : used[i] = Ctr(iv, i-1)
NoRepeat == \A i, j \in 1..Len(used) : i # j /\ Len(used) <= D*D => used[i] # used[j]
=============================================================================
