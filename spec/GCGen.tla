-------------------------------- MODULE GCGen --------------------------------
(* Gate programs: inputs with ordinary and extreme labels, constants, gates   *)
(* over any earlier wires (also one wire twice), offset changes, jumps.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS D
VARIABLES hist, nw, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Seeks == IOEnv.SEEK = "1"
H(r, k) == Len(hist) < D /\ hist' = Append(hist, r) /\ nw' = k /\ UNCHANGED done
Init == hist = <<>> /\ nw = 0 /\ done = FALSE
(* recent wires twice as likely *)
Wire == IF R(0..1) = 0 THEN R(0..(nw-1)) ELSE R((IF nw > 3 THEN nw - 3 ELSE 0)..(nw-1))
Gates == /\ nw > 0
         /\ \/ H([op|->"and", a|->Wire, b|->Wire], nw+1)
            \/ H([op|->"and", a|->Wire, b|->Wire], nw+1)
            \/ H([op|->"xor", a|->Wire, b|->Wire], nw+1)
            \/ H([op|->"not", a|->Wire, b|->0], nw+1)
            \/ (\E w \in {Wire} : H([op|->"and", a|->w, b|->w], nw+1))
            \/ (R(0..2) = 0 /\ \E w \in {Wire} : H([op|->"xor", a|->w, b|->w], nw+1))
Next == \/ Gates
        \/ H([op|->"in", a|->R(0..1), b|->R(0..9)], nw+1)
        \/ (R(0..1) = 0 /\ H([op|->"const", a|->R(0..1), b|->0], nw+1))
        \/ (Seeks /\ R(0..6) = 0 /\ H([op|->"seek", a|->R(0..4), b|->0], nw))
        \/ (R(0..9) = 0 /\ H([op|->"redelta", a|->R(0..1), b|->0], 0))
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, nw>> /\ PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
