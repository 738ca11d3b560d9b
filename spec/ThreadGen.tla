------------------------------ MODULE ThreadGen -----------------------------
(* Interleaved programs of three threads over thread-local backends.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, on, nw, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
O(t, op, a, b) == [t |-> t, op |-> op, a |-> a, b |-> b]
Init == hist = <<>> /\ on = <<FALSE, FALSE, FALSE>> /\ nw = <<0, 0, 0>> /\ done = FALSE
H(t, op, a, b, o, k) == Len(hist) < D /\ hist' = Append(hist, O(t, op, a, b)) /\ on' = [on EXCEPT ![t] = o] /\ nw' = [nw EXCEPT ![t] = k] /\ UNCHANGED done
Next == \/ \E t \in 1..3 :
             \/ (~on[t] /\ H(t, "install", R(0..1), 0, TRUE, 0))
             \/ (on[t] /\ R(0..9) = 0 /\ H(t, "remove", 0, 0, FALSE, 0))
             \/ (on[t] /\ R(0..19) = 0 /\ H(t, "respawn", 0, 0, FALSE, 0))
             \/ (R(0..5) = 0 /\ H(t, "peek", 0, 0, on[t], nw[t]))
             \/ (on[t] /\ H(t, "feed", R(0..1), 0, TRUE, nw[t] + 1))
             \/ (on[t] /\ nw[t] > 0 /\ H(t, R({"and", "xor", "not", "and"}), R(0..(nw[t]-1)), R(0..(nw[t]-1)), TRUE, nw[t] + 1))
             \/ (on[t] /\ nw[t] > 0 /\ H(t, "open", R(0..(nw[t]-1)), 0, TRUE, nw[t]))
             \/ (on[t] /\ R(0..2) = 0 /\ H(t, "count", 0, 0, TRUE, nw[t]))
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, on, nw>> /\ PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
