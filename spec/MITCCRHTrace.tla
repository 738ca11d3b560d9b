--------------------------- MODULE MITCCRHTrace ---------------------------
EXTENDS TraceBase, Blocks
VARIABLES l, start, gid, batch, used, B
K0(s,g) == TLCEval(RoundKeys(X16(s, Z8 \o g)))
M == INSTANCE MITCCRH WITH Key <- K0, Adv <- Add8
Init == l = 1 /\ start = Zero16 /\ gid = Z8 /\ batch = <<>> /\ used = 0 /\ B = 0
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Pre(x) == IF ev.cir THEN Sigma(x) ELSE x
(* K keys, each hashing H consecutive inputs *)
Out(x, ks) == X16(Enc(ks, x), x)
OutsFor(keys) == Len(ev.out) = 16*ev.k*ev.h /\ Len(ev.in) = 16*ev.k*ev.h
  /\ \A i \in 1..ev.k : \A j \in 1..ev.h : \E m \in {(i-1)*ev.h + j} :
        Blk(ev.out, m) = Out(Pre(Blk(ev.in, m)), keys[i])
New == Is("new") /\ M!New(ev.B, ev.s, Z8)
SetS == Is("setS") /\ M!SetS(ev.s)
Renew == Is("renew") /\ M!RenewNow(ev.g)
RenewH == Is("renewhere") /\ M!RenewNow(gid)
Hash == Is("hash") /\ (\A ks \in {M!KeysFor(ev.k)} : OutsFor(ks)) /\ M!Hash(ev.k)
Next == New \/ SetS \/ Renew \/ RenewH \/ Hash
=============================================================================
