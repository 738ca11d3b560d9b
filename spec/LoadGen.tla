------------------------------- MODULE LoadGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS D
(* Circuits: any split into input and output values, gates writing the        *)
(* non-input wires in any order, outputs the last wires.                      *)
(* wires may be written more than once in some: gates act in order on the wires' current values. *)
VARIABLES nin, G, hist, defd, done, reuse
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
NI == Sum(nin)
Init == /\ hist = <<>> /\ done = FALSE
        /\ nin \in {<<2,2>>, <<1,3>>, <<4,0>>, <<0,3>>, <<1,1>>, <<7,5>>, <<3>>, <<1,1,1>>, <<2,0,2>>, <<1,1,1,1>>, <<9,1,6>>, <<17,16>>}
        /\ G \in {0, 1, 2, 5, 9, 16, D}
        /\ defd = 0..(NI - 1)
        /\ reuse \in {FALSE, FALSE, TRUE}
All == 0..(NI + G - 1)
(* mostly in order, sometimes any free wire *)
OutW == IF reuse /\ NI > 0 /\ R(0..2) = 0 THEN R(defd) ELSE IF ~reuse /\ R(0..1) = 0 THEN R(All \ defd) ELSE CHOOSE x \in All \ defd : \A y \in All \ defd : x <= y
(* only executors of gate arrays know OR: circuits with G = 16 or 9 may contain it *)
Types == IF G \in {9, 16} THEN {0, 0, 1, 2, 3} ELSE {0, 0, 1, 2}
Near == IF R(0..1) = 0 \/ hist = <<>> THEN R(defd) ELSE hist[R((IF Len(hist) > 3 THEN Len(hist) - 3 ELSE 1)..Len(hist))][4]
Splits(k) == IF k = 0 THEN <<0>> ELSE IF R(0..1) = 0 THEN <<k>> ELSE (LET a == R(0..k) IN <<a, k - a>>)
Fin == [nin |-> nin, nout |-> Splits(R(0..Cardinality(defd))), w |-> Cardinality(defd), g |-> hist]
Next == \/ (Len(hist) < G /\ \E t \in {R(Types)}, o \in {OutW} :
              \E a \in {Near} : hist' = Append(hist, <<t, a, IF t = 2 THEN a ELSE Near, o>>) /\ defd' = defd \cup {o} /\ UNCHANGED <<nin, G, done, reuse>>)
        \/ (Len(hist) = G /\ ~done /\ done' = TRUE /\ UNCHANGED <<nin, G, hist, defd, reuse>> /\ PrintT("SCN " \o ToJson(Fin)))
=============================================================================
