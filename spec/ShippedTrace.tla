---------------------------- MODULE ShippedTrace ----------------------------
(* The shipped circuit files against FIPS-197, FIPS-180-4 and addition.       *)
EXTENDS TraceBase
VARIABLE l
A == INSTANCE AES
S == INSTANCE SHA2
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
AesF == Is("aes") /\ ev.o = A!Enc(A!RoundKeysN(ev.k, Len(ev.k) \div 4), ev.p)
Words(b) == [i \in 1..(Len(b) \div 4) |-> S!WordAt(b, 0, i-1)]
Flat(h, n) == [i \in 1..(4*n) |-> S!WBytes(h[(i+3) \div 4])[((i-1) % 4) + 1]]
Sha1 == Is("sha1") /\ (\E h \in {S!Compress1(S!H1IV, ev.m, 0)} : ev.o = Flat(h, 5))
Sha2 == Is("sha256") /\ (\E h \in {S!Compress256(S!H256, ev.m, 0)} : ev.o = Flat(h, 8))
Sha2h == Is("sha256h") /\ (\E h \in {S!Compress256(Words(ev.h), ev.m, 0)} : ev.o = Flat(h, 8))
Add == Is("add") /\ (\E lo \in {ev.q[1] + ev.q[3]} : \E hi \in {ev.q[2] + ev.q[4] + lo \div 65536} :
        SubSeq(ev.q, 5, 7) = <<lo % 65536, hi % 65536, hi \div 65536>>)
Next == AesF \/ Sha1 \/ Sha2 \/ Sha2h \/ Add
=============================================================================
