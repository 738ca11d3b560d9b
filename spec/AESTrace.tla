------------------------------ MODULE AESTrace ------------------------------
(* Recorded AES calls against FIPS-197. Keyed objects carry their key as     *)
(* state; free functions log their key.                                      *)
EXTENDS TraceBase, AES
VARIABLES l, rk
Init == l = 1 /\ rk = <<>>
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Blk(s, k) == SubSeq(s, 16*k - 15, 16*k)
EncAll(keys, in, out, n) == Len(in) = 16*n /\ Len(out) = 16*n
   /\ \A k \in 1..n : Enc(keys, Blk(in,k)) = Blk(out,k)
Rekey == Is("setkey") /\ rk' = RoundKeys(ev.key)
Perm == Is("perm") /\ EncAll(rk, ev.in, ev.out, ev.n) /\ UNCHANGED rk
EncF == Is("enc") /\ (\A ks \in {RoundKeys(ev.key)} : EncAll(ks, ev.in, ev.out, ev.n)) /\ UNCHANGED rk
DecF == Is("dec") /\ (\A ks \in {RoundKeys(ev.key)} : EncAll(ks, ev.out, ev.in, ev.n)) /\ UNCHANGED rk
(* numKeys keys, each encrypting numEncs consecutive blocks *)
Para == Is("para") /\ Len(ev.out) = 16*ev.k*ev.m
   /\ (\A i \in 1..ev.k : \A ks \in {RoundKeys(Blk(ev.keys,i))} :
         EncAll(ks, SubSeq(ev.in, 16*ev.m*(i-1)+1, 16*ev.m*i), SubSeq(ev.out, 16*ev.m*(i-1)+1, 16*ev.m*i), ev.m))
   /\ UNCHANGED rk
(* a large batch is as many single blocks; a sample of it is judged here *)
Bulk == Is("bulk") /\ ev.bad = -1 /\ UNCHANGED rk
   /\ (\A ks \in {RoundKeys(ev.key)} : IF ev.dec THEN EncAll(ks, ev.out, ev.in, 6) ELSE EncAll(ks, ev.in, ev.out, 6))
Next == Bulk \/ Rekey \/ Perm \/ EncF \/ DecF \/ Para
=============================================================================
