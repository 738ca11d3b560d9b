------------------------------ MODULE CRHTrace ------------------------------
(* Correlation-robust hashes: object key as state, element-wise definitions. *)
EXTENDS TraceBase, Blocks
VARIABLES l, rk
Init == l = 1 /\ rk = <<>>
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
CR(x) == X16(Enc(rk,x), x)
CCRs(s) == X16(Enc(rk,s), s)
CCR(x) == CCRs(Sigma(x))
TCCp(p, i) == X16(Enc(rk, X16(p, i \o Z8)), p)
TCC(x, i) == TCCp(Enc(rk,x), i)
Shape == Len(ev.in) = 16*ev.n /\ Len(ev.out) = 16*ev.n
Key == Is("key") /\ rk' = RoundKeys(ev.key)
Crh == Is("crh") /\ Shape /\ (\A k \in 1..ev.n : Blk(ev.out,k) = CR(Blk(ev.in,k))) /\ UNCHANGED rk
Ccrh == Is("ccrh") /\ Shape /\ (\A k \in 1..ev.n : Blk(ev.out,k) = CCR(Blk(ev.in,k))) /\ UNCHANGED rk
Tccrh == Is("tccrh") /\ Shape /\ (\A k \in 1..ev.n : Blk(ev.out,k) = TCC(Blk(ev.in,k), Add8(ev.id,k-1))) /\ UNCHANGED rk
Sig == Is("sigma") /\ ev.out = Sigma(ev.in) /\ UNCHANGED rk
Next == Key \/ Crh \/ Ccrh \/ Tccrh \/ Sig
=============================================================================
