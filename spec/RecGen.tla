------------------------------- MODULE RecGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS D
(* Programs to record: first party's inputs, then the second's, then gates    *)
(* and reveals in any order. Sometimes more inputs than a truth table holds.  *)
VARIABLES hist, nw, ph, rev, done, big
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r, k, p) == Len(hist) < D /\ hist' = Append(hist, r) /\ nw' = k /\ ph' = p /\ UNCHANGED <<done, big>>
O(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
Init == hist = <<>> /\ nw = 0 /\ ph = 0 /\ rev = 0 /\ done = FALSE /\ big \in 0..3
Wi == IF R(0..2) > 0 THEN R(0..(nw-1)) ELSE R((IF nw > 3 THEN nw - 3 ELSE 0)..(nw-1))
Room == (IF big = 0 THEN 20 ELSE 4) - nw
Gate == nw > 0 /\ UNCHANGED rev /\
        (\/ (\E op \in {"and","band"} : H(O(op, Wi, Wi, 0), nw+1, 2))
         \/ (\E op \in {R({"xor","bxor","bne","bxe","beq"})} : H(O(op, Wi, Wi, 0), nw+1, 2))
         \/ (\E op \in {R({"not","bnot"})} : H(O(op, Wi, 0, 0), nw+1, 2))
         \/ (\E op \in {R({"bor","sel","if"})} : H(O(op, Wi, Wi, Wi), nw+1, 2))
         \/ (R(0..2) = 0 /\ H(O("swap", Wi, Wi, Wi), nw+2, 2))
         \/ (R(0..1) = 0 /\ H(O(R({"pub","pubfeed"}), R(0..1), R(0..1), 0), nw+1, 2)))
Next == \/ (ph < 2 /\ Room > 0 /\ UNCHANGED rev /\ \E k \in {R(1..Room)}, p \in {R(ph..1)} : H(O("feed", k, p, R(0..1)), nw+k, p))
        \/ (ph < 2 /\ Room > 0 /\ UNCHANGED rev /\ \E k \in {R(1..Room)}, p \in {R(ph..1)} : H(O("feed", k, p, R(0..1)), nw+k, p))
        \/ Gate
        \/ (nw > 0 /\ R(0..1) = 0 /\ rev' = rev + 1 /\ H(O("reveal", Wi, R(0..2), R(0..1)), nw, 2))
        \/ (nw > 3 /\ R(0..3) = 0 /\ rev' = rev + 1 /\ H(O("revealn", R(0..(nw-4)), R(1..4), 0), nw, 2))
        \/ (nw > 3 /\ R(0..7) = 0 /\ UNCHANGED rev /\ H(O("revealn", 0, 0, 0), nw, 2))
        \/ (ph < 2 /\ R(0..7) = 0 /\ UNCHANGED rev /\ (\E p \in {R(ph..1)} : H(O("feed", 0, p, 0), nw, p)))
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, nw, ph, rev, big>> /\ rev > 0 /\ PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
