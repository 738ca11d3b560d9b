------------------------------ MODULE PlainGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS D
(* Programs for the clear backend; feeds and constants at any time *)
VARIABLES hist, nw, fed, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r, k, f) == Len(hist) < D /\ hist' = Append(hist, r) /\ nw' = k /\ fed' = f /\ UNCHANGED done
O(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
Init == hist = <<>> /\ nw = 0 /\ fed = 0 /\ done = FALSE
Wi == IF R(0..2) > 0 THEN R(0..(nw-1)) ELSE R((IF nw > 3 THEN nw - 3 ELSE 0)..(nw-1))
Next == \/ (\E op \in {"and","band"} : nw > 0 /\ H(O(op, Wi, Wi, 0), nw+1, fed))
        \/ (\E op \in {R({"xor","bxor","bne","bxe","beq"})} : nw > 0 /\ H(O(op, Wi, Wi, 0), nw+1, fed))
        \/ (\E op \in {R({"not","bnot"})} : nw > 0 /\ H(O(op, Wi, 0, 0), nw+1, fed))
        \/ (\E op \in {R({"bor","sel","if"})} : nw > 0 /\ H(O(op, Wi, Wi, Wi), nw+1, fed))
        \/ (nw > 0 /\ R(0..2) = 0 /\ H(O("swap", Wi, Wi, Wi), nw+2, fed))
        \/ (R(0..1) = 0 /\ H(O(R({"pub","pubfeed"}), R(0..1), R(0..1), 0), nw+1, fed))
        \/ (nw > 0 /\ R(0..3) = 0 /\ H(O("reveal", Wi, R(0..2), R(0..1)), nw, fed))
        \/ (nw > 3 /\ R(0..6) = 0 /\ H(O("revealn", R(0..(nw-4)), R(1..4), 0), nw, fed))
        \/ (fed < 4 /\ \E k \in {R(1..(4-fed))} : H(O("feed", k, R(0..1), R(0..1)), nw+k, fed+k))
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, nw, fed>> /\ PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
