------------------------------- MODULE PRGGen -------------------------------
(* Behaviours of the PRG interface for replay: kinds, sizes, addresses.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
(* state-dependent on purpose: TLC would evaluate a constant random choice once *)
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Sz == (0..34) \cup {47,48,49,63,64,65,100,127,128,129,130,143,144,145,255,256,257,300}
NB == (0..17) \cup {23,24,25,31,32,33,40}
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED done
Init == \E a \in 0..3, b \in 0..15 : hist = <<[op|->"new", n|->a, off|->b]>> /\ done = FALSE
Next == \/ H([op|->"block", n|->R(NB), off|->0])
        \/ H([op|->"data", n|->R(Sz), off|->0])
        \/ H([op|->"unal", n|->R(Sz), off|->R(0..15)])
        \/ H([op|->"unal", n|->R(0..40), off|->R(0..15)])
        \/ H([op|->"bool", n|->R(Sz), off|->R(0..15)])
        \/ H([op|->"word", n|->R({1,2,3,31,32,33,40}), off|->0])
        \/ H([op|->"word", n|->R(1..5), off|->0])
        \/ H([op|->"reseed", n|->R({0,1,2,3,4,4,5}), off|->R(0..15)])
        \/ (R(0..2) = 0 /\ H([op|->"reseed", n|->4, off|->R(0..15)]))
        \/ H([op|->"seek", n|->R(0..6), off|->R(0..20)])
        \/ H([op|->"fresh", n|->0, off|->0])
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson(hist))
=============================================================================
