------------------------------ MODULE MITCCRH ------------------------------
(* Multi-instance hash: a stream of keys key(start, index), scheduled in     *)
(* batches; each call consumes the next K keys of the batch.                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Key(_,_),    \* Key(start, index)
          Adv(_,_)     \* Adv(index, n)
VARIABLES start, gid, batch, used, B
mvars == <<start, gid, batch, used, B>>
Fill == TLCEval([i \in 1..B |-> Key(start, Adv(gid, i-1))])
New(b, s, g) == start' = s /\ gid' = g /\ batch' = <<>> /\ used' = b /\ B' = b
SetS(s) == start' = s /\ UNCHANGED <<gid, batch, used, B>>
RenewNow(g) == LET f == [i \in 1..B |-> Key(start, Adv(g, i-1))] IN
   batch' = TLCEval(f) /\ gid' = Adv(g, B) /\ used' = 0 /\ UNCHANGED <<start, B>>
Renews(K) == used + K > B
KeysFor(K) == IF Renews(K) THEN SubSeq(Fill, 1, K) ELSE SubSeq(batch, used+1, used+K)
Hash(K) == IF Renews(K)
           THEN batch' = Fill /\ gid' = Adv(gid, B) /\ used' = K /\ UNCHANGED <<start, B>>
           ELSE used' = used + K /\ UNCHANGED <<start, gid, batch, B>>
=============================================================================
