-------------------------------- MODULE HSGen -------------------------------
(* Turn-taking exchanges over a HighSpeedNetIO pair: the party whose turn it *)
(* is sends any number of messages, the other receives the same bytes in any *)
(* split, then roles may change; both flush only at the same drained point.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, s, r, turn, phase, seg
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
CH == 32768
Small == (0..40) \cup {100,255,256,1000,4096}
Edge == {CH-1,CH,CH+1,2*CH-1,2*CH,2*CH+1,3*CH,CH-40,CH-7,100000}
Init == hist = <<>> /\ done = FALSE /\ s = 0 /\ r = 0 /\ turn \in {0,1} /\ phase = "send" /\ seg \in {-1,-1,5000,40000,0}
Op(p,o,n) == [p |-> p, op |-> o, n |-> n]
Put(rs) == Len(hist) < D /\ hist' = hist \o rs /\ UNCHANGED <<done,seg>>
SendN(n) == phase = "send" /\ s < 400000 /\ Put(<<Op(turn,"send",n)>>) /\ s' = s + n /\ UNCHANGED <<r,turn,phase>>
ToRecv == phase = "send" /\ hist # <<>> /\ hist[Len(hist)].op = "send" /\ phase' = "recv" /\ UNCHANGED <<hist,done,s,r,turn,seg>>
Left == s - r
Amount == LET k == R(1..7) IN IF k <= 2 THEN Left ELSE IF k = 3 /\ Left > 0 THEN 1 ELSE IF k = 4 /\ Left > 0 THEN Left - 1 ELSE IF k = 5 THEN R(0..Left)
          ELSE IF k = 6 /\ Left > CH THEN CH ELSE IF Left > 40 THEN R(1..40) ELSE Left
RecvN == phase \in {"recv","drained"} /\ Left > 0 /\ Put(<<Op(1-turn,"recv",Amount)>>) /\ r' = r + hist'[Len(hist')].n /\ phase' = "drained" /\ UNCHANGED <<s,turn>>
Recv0 == phase \in {"recv","drained"} /\ Left = 0 /\ Put(<<Op(1-turn,"recv",0)>>) /\ phase' = "drained" /\ UNCHANGED <<s,r,turn>>
Swap == phase = "drained" /\ Left = 0 /\ phase' = "send" /\ turn' = 1 - turn /\ s' = 0 /\ r' = 0 /\ UNCHANGED <<hist,done,seg>>
(* after a common flush either party may start *)
FlushBoth == phase = "drained" /\ Left = 0 /\ Put(<<Op(2,"flush",0)>>) /\ phase' = "send" /\ turn' \in {0,1} /\ s' = 0 /\ r' = 0
(* flush before receiving: the data must arrive although the sender stays away *)
FlushMid == phase = "recv" /\ Left > 0 /\ r = 0 /\ Put(<<Op(turn,"flush",0), Op(1-turn,"recv",Left), Op(turn,"await",0), Op(1-turn,"flush",0)>>)
            /\ phase' = "send" /\ turn' \in {0,1} /\ s' = 0 /\ r' = 0
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,s,r,turn,phase,seg>>
          /\ PrintT("SCN " \o ToJson([seg |-> seg, ops |-> hist \o (IF Left > 0 \/ phase = "recv" THEN <<Op(1-turn,"recv",Left)>> ELSE <<>>)]))
Next == SendN(R(Small)) \/ SendN(R(Small)) \/ SendN(R(Edge)) \/ ToRecv \/ RecvN \/ Recv0 \/ Swap \/ FlushBoth \/ FlushMid \/ Finish
=============================================================================
