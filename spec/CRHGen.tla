------------------------------- MODULE CRHGen -------------------------------
(* Histories of hash objects: construction, re-keying, calls of every form. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED done
Ns == (0..12) \cup {15,16,17,23,24,25,33}
Init == (\E k \in 0..2, o \in 0..2 : hist = <<[op|->"new", o|->o, k|->k]>>) /\ done = FALSE
Next == \/ H([op|->"one", id|->R(0..5)])
        \/ H([op|->"tmpl", n|->R({1,2,3,4,7,8,9,12,16,17}), id|->R(0..5), alias|->R(0..1)])
        \/ H([op|->"arr", n|->R(Ns), id|->R(0..5), alias|->R(0..1), scratch|->R(0..1)])
        \/ H([op|->"arr", n|->R(0..9), id|->R(0..5), alias|->R(0..1), scratch|->R(0..1)])
        \/ H([op|->"rekey"])
        \/ H([op|->"sigma"])
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson(hist))
=============================================================================
