------------------------------- MODULE Group --------------------------------
(* A cyclic group of known order seen through its encodings: every register  *)
(* holds a scalar (multiple of the generator); encodings are an injective    *)
(* function of the scalar, learned along the history and anchored at the     *)
(* identity and the generator.                                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS AddS(_,_), MulS(_,_), NegS(_)   \* arithmetic of scalars modulo the order
VARIABLES reg, known
Consistent(s, enc) == \A k \in known : (k[1] = s) <=> (k[2] = enc)
Learn(s, enc) == Consistent(s, enc) /\ known' = known \cup {<<s, enc>>}
Put(d, s, enc) == Learn(s, enc) /\ reg' = [reg EXCEPT ![d] = s]
(* all registers still read back what they hold *)
Reads(encs) == \A i \in 1..Len(encs) : encs[i] = <<>> \/ \E k \in known' : k[1] = reg'[i] /\ k[2] = encs[i]
=============================================================================
