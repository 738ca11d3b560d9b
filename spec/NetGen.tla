------------------------------- MODULE NetGen -------------------------------
(* Exchanges over a NetIO pair: a total order of calls in which every        *)
(* receive is preceded by the sends it needs; each party later runs only its *)
(* own calls, at its own speed. Joint steps (sync) happen on drained streams.*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, s, r, last, seg
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
P == {0,1}
Out(p) == s[p] - r[p]         \* bytes of p's stream not yet received
Small == (0..40) \cup {100,255,256,1000,4096,4097}
Mid == {8191,8192,16384,30000}
Big == {1048575,1048576,1048577,1048570,2097152,1500000,65535,65536,65537,131072}
Cap == 60000
Init == /\ hist = <<>> /\ done = FALSE /\ s = [p \in P |-> 0] /\ r = [p \in P |-> 0] /\ last = [p \in P |-> "none"]
        /\ seg \in {0, 0, -1, 1, 7, 1000, 20000}
Live == Len(hist) < D
Put(rs) == Live /\ hist' = hist \o rs /\ UNCHANGED <<done,seg>>
Op(p,o,n) == [p |-> p, op |-> o, n |-> n]
Mark(p,o) == last' = [last EXCEPT ![p] = o]
SendN(p,n) == Put(<<Op(p,"send",n)>>) /\ s' = [s EXCEPT ![p] = @ + n] /\ Mark(p,"send") /\ UNCHANGED r
Send(p) == Out(p) <= Cap - 31000 /\ SendN(p, R(IF seg = 1 THEN 0..30 ELSE Small \cup Mid))
SendSmall(p) == Out(p) <= Cap - 31000 /\ SendN(p, R(0..20))
SendBig(p) == seg \notin {1,7} /\ s[p] < 3000000 /\ Out(1-p) = 0 /\ Out(p) <= Cap /\ SendN(p, R(Big))
Amount(a) == LET k == R(1..6) IN IF k = 1 THEN a ELSE IF k = 2 THEN 1 ELSE IF k = 3 THEN a - 1 ELSE IF k = 4 THEN R(0..a) ELSE IF k = 5 THEN (a + 1) \div 2 ELSE IF a > 8192 THEN 8192 ELSE a
Recv(p) == Out(1-p) > 0 /\ Put(<<Op(p,"recv",Amount(Out(1-p)))>>)
           /\ r' = [r EXCEPT ![1-p] = @ + hist'[Len(hist')].n] /\ Mark(p,"recv") /\ UNCHANGED s
Flush(p) == Put(<<Op(p,"flush",0)>>) /\ Mark(p,"flush") /\ UNCHANGED <<s,r>>
(* p stays outside the channel until the peer has everything p sent *)
Await(p) == last[p] = "flush" /\ s[p] > 0 /\ Out(p) = 0 /\ Out(1-p) <= Cap /\ Put(<<Op(p,"await",0)>>) /\ Mark(p,"await") /\ UNCHANGED <<s,r>>
Sync == Out(0) = 0 /\ Out(1) = 0 /\ Put(<<Op(2,"sync",0)>>) /\ last' = [p \in P |-> "sync"] /\ UNCHANGED <<s,r>>
(* a flush must reach the peer while the sender stays away *)
FlushAwait(p) == Out(1-p) = 0 /\ Out(p) > 0 /\ Put(<<Op(p,"flush",0), Op(1-p,"recv",Out(p)), Op(p,"await",0)>>)
                 /\ r' = [r EXCEPT ![p] = s[p]] /\ last' = [q \in P |-> IF q = p THEN "await" ELSE "recv"] /\ UNCHANGED s
(* a receive of nothing is a receive: what was sent before it must reach the peer *)
Recv0(p) == Out(1-p) <= Cap /\ Put(<<Op(p,"recv",0)>>) /\ Mark(p,"recv") /\ UNCHANGED <<s,r>>
Recv0Await(p) == Out(1-p) = 0 /\ Out(p) > 0 /\ Put(<<Op(p,"recv",0), Op(1-p,"recv",Out(p)), Op(p,"await",0)>>)
                 /\ r' = [r EXCEPT ![p] = s[p]] /\ last' = [q \in P |-> IF q = p THEN "await" ELSE "recv"] /\ UNCHANGED s
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,s,r,last,seg>>
          /\ LET tail == (IF Out(1) > 0 THEN <<Op(0,"recv",Out(1))>> ELSE <<>>) \o (IF Out(0) > 0 THEN <<Op(1,"recv",Out(0))>> ELSE <<>>)
             IN PrintT("SCN " \o ToJson([seg |-> seg, ops |-> hist \o tail]))
Next == (\E p \in P : Send(p) \/ SendSmall(p) \/ SendBig(p) \/ Recv(p) \/ Recv(p) \/ Flush(p) \/ Await(p) \/ FlushAwait(p) \/ Recv0(p) \/ Recv0Await(p)) \/ Sync \/ Finish
=============================================================================
