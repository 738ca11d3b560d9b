---------------------------- MODULE SpongeModel -----------------------------
(* The bit-at-a-time absorber of the in-circuit SHA3, at reduced size (bytes *)
(* of BB bits, rate of RB bytes, one capacity byte), against "zero-complete  *)
(* to bytes, pad10*1 with suffix, split into blocks". The permutation is     *)
(* ideal: a state is the sequence of masks xored in between permutations.    *)
(* Variant selects a broken absorber; TLC must reject each of them.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BB, RB, MaxBits, Variant
VARIABLES msg, mask, done, index
vars == <<msg, mask, done, index>>
Rate == BB * RB
Zero == [i \in 0..(Rate + BB - 1) |-> 0]
X(m, i) == [m EXCEPT ![i] = 1 - @]
Init == msg = <<>> /\ mask = Zero /\ done = <<>> /\ index = 0
Put(b) == /\ Len(msg) < MaxBits
          /\ msg' = Append(msg, b)
          /\ LET m == IF b = 1 THEN X(mask, index) ELSE mask IN
             IF index + 1 = Rate THEN done' = Append(done, m) /\ mask' = Zero /\ index' = 0
                                 ELSE done' = done /\ mask' = m /\ index' = index + 1
Next == \E b \in {0, 1} : Put(b)
Spec == Init /\ [][Next]_vars
(* finishing: round up to a byte; a full block is permuted; suffix 01 1 ... 1 *)
Up(i) == BB * ((i + BB - 1) \div BB)
Finish ==
  LET i0 == IF Variant = "floor" THEN BB * (index \div BB) ELSE Up(index)
      full == i0 = Rate /\ Variant # "nowrap"
      d == IF full THEN Append(done, mask) ELSE done
      m == IF full THEN Zero ELSE mask
      i == IF full THEN 0 ELSE i0
      s == X(X(m, i + 1), i + 2)
      e == IF Variant = "nolast" THEN s ELSE X(s, Rate - 1)
  IN Append(d, e)
(* the specification on the whole message *)
Full == [k \in 1..Up(Len(msg)) |-> IF k <= Len(msg) THEN msg[k] ELSE 0]
PadLen(n) == Rate - (n % Rate)
Padded(f) == [k \in 1..(Len(f) + PadLen(Len(f))) |->
   IF k <= Len(f) THEN f[k]
   ELSE LET o == k - Len(f) - 1 IN
        ((IF o = 1 \/ o = 2 THEN 1 ELSE 0) + (IF k = Len(f) + PadLen(Len(f)) THEN 1 ELSE 0)) % 2]
BlocksOf(p) == [b \in 1..(Len(p) \div Rate) |-> [i \in 0..(Rate + BB - 1) |-> IF i < Rate THEN p[Rate*(b-1) + i + 1] ELSE 0]]
Conforms == Finish = BlocksOf(Padded(Full))
(* no capacity bit is ever written from outside *)
CapacityClean == \A k \in DOMAIN Finish : \A i \in Rate..(Rate + BB - 1) : Finish[k][i] = 0
=============================================================================
