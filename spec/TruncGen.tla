------------------------------ MODULE TruncGen ------------------------------
(* Receives of several kinds and sizes, and a stream that ends anywhere.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, kind
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Kinds == {"net","hs","file","mem","load"}
Init == kind \in Kinds /\ hist = <<>> /\ done = FALSE
CH == 32768
Bytes(q) == IF q.k = "block" THEN 16*q.n ELSE IF q.k = "bool" THEN (q.n \div 8) + (q.n % 8) ELSE q.n
RECURSIVE Tot(_,_)
Tot(s,i) == IF i = 0 THEN 0 ELSE Bytes(s[i]) + Tot(s,i-1)
Cut(t) == LET k == R(1..8) IN IF k = 1 THEN t ELSE IF k = 2 /\ t > 0 THEN t - 1 ELSE IF k = 3 THEN 0 ELSE IF k = 4 THEN R(0..(IF t < 20 THEN t ELSE 20))
          ELSE IF k = 5 THEN Tot(hist, R(0..Len(hist))) ELSE IF k = 6 THEN Tot(hist, R(0..Len(hist))) + 1 ELSE R(0..t)
HCut(t) == LET c == (t + CH - 1) \div CH k == R(1..7) IN IF k = 1 THEN c*CH ELSE IF k = 2 THEN R(0..c)*CH ELSE IF k = 3 THEN R(0..c)*CH + 1
           ELSE IF k = 4 /\ c > 0 THEN R(1..c)*CH - 1 ELSE IF k = 5 THEN t ELSE R(0..(c*CH))
Put(q) == Len(hist) < D /\ hist' = Append(hist, q) /\ UNCHANGED <<done,kind>>
Next == \/ Put([k |-> "data", n |-> R(0..40)])
        \/ Put([k |-> "data", n |-> R({100,1000,4096,32767,32768,32769,70000,1048576,1048577})])
        \/ Put([k |-> "block", n |-> R(0..5)])
        \/ (kind \notin {"mem","load"} /\ Put([k |-> "bool", n |-> R(0..70)]))
        \/ (Len(hist) >= R(1..D) /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,kind>>
            /\ LET t == Tot(hist, Len(hist)) IN
               PrintT("SCN " \o ToJson([kind |-> kind, reqs |-> hist, len |-> t, server |-> R(0..1), cap |-> R({1,2,16,64,1000}),
                                         avail |-> IF kind = "hs" THEN HCut(t) ELSE Cut(t)])))
=============================================================================
