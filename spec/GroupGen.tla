------------------------------ MODULE GroupGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED done
I == 1..4
Init == hist = <<[op|->"start"]>> /\ done = FALSE
Next == \/ H([op|->"mulgen", d|->R(I), k|->R(0..14)])
        \/ H([op|->"mul", d|->R(I), a|->R(I), k|->R(0..14)])
        \/ H([op|->"add", d|->R(I), a|->R(I), b|->R(I), law|->R(0..3)])
        \/ H([op|->"add", d|->R(I), a|->R(I), b|->R(I), law|->R(1..4)])
        \/ H([op|->"add", d|->1, a|->1, b|->1, law|->R(0..3)])
        \/ H([op|->"inv", d|->R(I), a|->R(I)])
        \/ H([op|->"gen", d|->R(I)])
        \/ H([op|->"copy", d|->R(I), a|->R(I), k|->R(0..3)])
        \/ H([op|->"via", d|->R(I), a|->R(I)])
        \/ H([op|->"via", d|->R(I), a|->R(I)])
        \/ H([op|->"eq", a|->R(I), b|->R(I)])
        \/ H([op|->"big", k|->R(0..5), x|->R(0..7), y|->R(0..7), m|->R(1..7), al|->R(0..3)])
        \/ H([op|->"big", k|->R(0..5), x|->R(0..7), y|->R(0..7), m|->R(1..7), al|->R(0..3)])
        \/ H([op|->"big", k|->4, x|->R(0..7), y|->R(0..7), m|->1, al|->2])
        \/ H([op|->"rand"])
        \/ H([op|->"rands", k|->R(0..17)])
        \/ H([op|->"eqi", a|->R(I), b|->R(I)])
        \/ (\E a \in {R(I)} : H([op|->"eqi", a|->a, b|->a]))
        \/ H([op|->"xgroup", d|->R(I), a|->R(I), k|->R(0..7)])
        \/ H([op|->"bad", a|->R(I), b|->R(I), k|->R(0..9)])
        \/ H([op|->"big", k|->R(0..1), x|->R(0..9), y|->R(7..9), m|->1, al|->R(0..3)])
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson(hist))
=============================================================================
