----------------------------- MODULE TransModel -----------------------------
(* Tiling of the bit-matrix transposition: 16x8 tiles for whole groups of 16 *)
(* rows, then for a remaining group of 8 rows 8x16 tiles and possibly one    *)
(* 8x8 tile. For every size the tiles cover each bit exactly once and the    *)
(* loop ends. T is the tile unit (8 in the code).                            *)
EXTENDS Integers, FiniteSets
CONSTANTS T, MaxR, MaxC
VARIABLES nr, nc, rr, cc, phase, cnt
vars == <<nr,nc,rr,cc,phase,cnt>>
Cells == {<<r,c>> : r \in 0..(nr-1), c \in 0..(nc-1)}
Init == nr \in {T*k : k \in 1..MaxR} /\ nc \in {T*k : k \in 1..MaxC} /\ rr = 0 /\ cc = 0 /\ phase = "main"
        /\ cnt = [x \in Cells |-> 0]
Tile(r0,h,c0,w) == cnt' = [x \in Cells |-> cnt[x] + IF x[1] >= r0 /\ x[1] < r0+h /\ x[2] >= c0 /\ x[2] < c0+w THEN 1 ELSE 0]
Main == phase = "main" /\ UNCHANGED <<nr,nc>> /\
   IF rr + 2*T <= nr
   THEN IF cc < nc THEN Tile(rr,2*T,cc,T) /\ cc' = cc + T /\ UNCHANGED <<rr,phase>>
        ELSE rr' = rr + 2*T /\ cc' = 0 /\ UNCHANGED <<phase,cnt>>
   ELSE phase' = (IF rr = nr THEN "done" ELSE "pair") /\ cc' = 0 /\ UNCHANGED <<rr,cnt>>
Pair == phase = "pair" /\ UNCHANGED <<nr,nc,rr>> /\
   IF cc + 2*T <= nc THEN Tile(rr,T,cc,2*T) /\ cc' = cc + 2*T /\ UNCHANGED phase
   ELSE phase' = (IF cc = nc THEN "done" ELSE "last") /\ UNCHANGED <<cc,cnt>>
Last == phase = "last" /\ UNCHANGED <<nr,nc,rr,cc>> /\ Tile(rr,T,cc,T) /\ phase' = "done"
Done == phase = "done" /\ UNCHANGED vars
Next == Main \/ Pair \/ Last \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A x \in Cells : cnt[x] <= 1
CoversAll == phase = "done" => \A x \in Cells : cnt[x] = 1
Ends == <>(phase = "done")
=============================================================================
