---------------------------- MODULE MITCCRHGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED done
Init == (\E b \in {4,8,8,8,16}, m \in 0..2 : hist = <<[op|->"new", b|->b, m|->m]>>) /\ done = FALSE
(* m = 0: one shape throughout, as the garbling code does; otherwise mixed shapes *)
Kk == IF hist[1].m = 0 THEN {2} ELSE IF hist[1].m = 1 THEN {1,2} ELSE {1,2,4,8}
Next == \/ H([op|->"hash", k|->R(Kk), h|->R({1,2,4}), cir|->R(0..1)])
        \/ H([op|->"hash", k|->R(Kk), h|->R({1,2}), cir|->R(0..1)])
        \/ H([op|->"hash", k|->R(Kk), h|->R({1,2,3}), cir|->R(0..1)])
        \/ (R(0..2) = 0 /\ H([op|->"setS"]))
        \/ (R(0..2) = 0 /\ H([op|->"renew", g|->R(0..10)]))
        \/ (R(0..2) = 0 /\ H([op|->"renew", g|->R(7..10)]))
        \/ (R(0..3) = 0 /\ H([op|->"renewhere"]))
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson(hist))
=============================================================================
