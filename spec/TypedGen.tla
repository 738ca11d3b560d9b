------------------------------ MODULE TypedGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, ch
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Init == ch \in {"mem","mem","file","net"} /\ hist = <<>> /\ done = FALSE
Put(k, n) == Len(hist) < D /\ hist' = Append(hist, [k |-> k, n |-> n, so |-> R(0..31), ro |-> R(0..31)]) /\ UNCHANGED <<done,ch>>
Next == \/ Put("data", R((0..40) \cup {100,257}))
        \/ Put("block", R(0..5))
        \/ Put("bool", R(0..40))
        \/ Put("bool", R({8,16,63,64,65,71,72,128,129,200}))
        \/ Put("boola", R((0..40) \cup {64,65,127,200}))
        \/ Put("pt", R(0..3))
        \/ Put("get", 0) \/ Put("get", 1)
        \/ (Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,ch>> /\ PrintT("SCN " \o ToJson([ch |-> ch, cap |-> R({1,4,64,1000}), ops |-> hist])))
=============================================================================
