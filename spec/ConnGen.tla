------------------------------- MODULE ConnGen -------------------------------
(* Sessions: who starts first and by how much, which of the client's         *)
(* attempts the kernel gives the destination port itself as source port      *)
(* (self, 0 = none; port = on which of the two ports), whether the server    *)
(* arrives while that connection exists (hold), who shuts first, and by which *)
(* address the client knows the server.                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, kind, pairs
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Init == kind \in {"net","hs"} /\ pairs \in {1,1,2,3} /\ hist = <<>> /\ done = FALSE
Put(q) == Len(hist) < D /\ hist' = Append(hist, q) /\ UNCHANGED <<done,kind,pairs>>
S(f, d, s, h) == [first |-> f, delay |-> d, self |-> s, port |-> R(0..1), hold |-> h, shut |-> R(0..2), addr |-> R(0..2), len |-> R({0,1,17,500,2000}), bad |-> R({0,0,0,-1,65536,-65536,70000,2147483647})]
Next == \/ Put(S(0, R({0,1,3,10,30}), 0, 0))
        \/ Put(S(1, R({0,1,3,10,30}), 0, 0))
        \/ Put(S(1, R(0..4), R(1..3), R(0..1)))
        \/ (Len(hist) >= R(1..D) /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,kind,pairs>>
            /\ PrintT("SCN " \o ToJson([kind |-> kind, pairs |-> pairs, sess |-> hist])))
=============================================================================
