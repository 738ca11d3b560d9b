------------------------------ MODULE StoreGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, ml, mp, fl, fp, fm   \* lengths and positions; fm: file mode none|any|w|r
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Caps == {0,1,2,3,4,8,16,17,64,100,4096}
Sz == (0..20) \cup {31,32,33,64,100,127,128,255,256,1000,4095,4096,4097,10000,16383,16384,32768,70000}
O(op,n) == [op |-> op, n |-> n]
Put(o) == Len(hist) < D /\ hist' = Append(hist, o) /\ UNCHANGED done
Val == hist'[Len(hist')].n
Init == \E c \in Caps : hist = <<O("mnew", c)>> /\ done = FALSE /\ ml = 0 /\ mp = 0 /\ fl = 0 /\ fp = 0 /\ fm = "none"
UFF == UNCHANGED <<fl,fp,fm>>
UMM == UNCHANGED <<ml,mp>>
Some(k) == LET j == R(1..6) IN IF j = 1 THEN k ELSE IF j = 2 THEN (IF k > 0 THEN 1 ELSE 0) ELSE IF j = 3 /\ k > 0 THEN k-1 ELSE IF j = 4 THEN R({x \in 0..20 : x <= k}) ELSE R(0..k)
Next == \/ Put(O("msend", R(Sz))) /\ ml' = ml + Val /\ UNCHANGED mp /\ UFF
        \/ Put(O("msend", R(0..9))) /\ ml' = ml + Val /\ UNCHANGED mp /\ UFF
        \/ Put(O("mrecv", Some(ml - mp))) /\ mp' = mp + Val /\ UNCHANGED ml /\ UFF
        \/ Put(O("mrecv", Some(ml - mp))) /\ mp' = mp + Val /\ UNCHANGED ml /\ UFF
        \/ Put(O("mrecv", ml - mp + R({1,2,50}))) /\ UMM /\ UFF
        \/ Put(O("mclear", 0)) /\ ml' = 0 /\ mp' = 0 /\ UFF
        \/ R(1..3) = 1 /\ Put(O("mnew", R(Caps))) /\ ml' = 0 /\ mp' = 0 /\ UFF
        \/ fm \in {"any","r"} /\ Put(O("mload", Some(fl - fp))) /\ ml' = Val /\ mp' = 0 /\ fp' = fp + Val /\ fm' = "r" /\ UNCHANGED fl
        \/ fm = "none" /\ Put(O("fnew", 0)) /\ fl' = 0 /\ fp' = 0 /\ fm' = "w" /\ UMM
        \/ fm = "none" /\ fl > 0 /\ Put(O("fnew", 1)) /\ fp' = 0 /\ fm' = "any" /\ UNCHANGED fl /\ UMM
        \/ fm \in {"any","w"} /\ Put(O("fsend", R(Sz))) /\ fp' = fp + Val /\ fl' = (IF fp + Val > fl THEN fp + Val ELSE fl) /\ fm' = "w" /\ UMM
        \/ fm \in {"any","r"} /\ Put(O("frecv", Some(fl - fp))) /\ fp' = fp + Val /\ fm' = "r" /\ UNCHANGED fl /\ UMM
        \/ fm \in {"any","r"} /\ Put(O("frecv", Some(fl - fp))) /\ fp' = fp + Val /\ fm' = "r" /\ UNCHANGED fl /\ UMM
        \/ fm # "none" /\ Put(O("freset", 0)) /\ fp' = 0 /\ fm' = "any" /\ UNCHANGED fl /\ UMM
        \/ fm = "w" /\ Put(O("fflush", 0)) /\ UFF /\ UMM
        \/ fm # "none" /\ Put(O("fclose", 0)) /\ fm' = "none" /\ UNCHANGED <<fl,fp>> /\ UMM
        \/ Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,ml,mp,fl,fp,fm>> /\ PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
