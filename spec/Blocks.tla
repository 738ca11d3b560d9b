------------------------------- MODULE Blocks -------------------------------
(* 128-bit blocks as 16 bytes in memory order (little endian).              *)
EXTENDS AES
Blk(s, k) == SubSeq(s, 16*k - 15, 16*k)
NB(s) == Len(s) \div 16
Lo(b) == SubSeq(b,1,8)
Hi(b) == SubSeq(b,9,16)
X8(a,b) == <<a[1]^^b[1],a[2]^^b[2],a[3]^^b[3],a[4]^^b[4],a[5]^^b[5],a[6]^^b[6],a[7]^^b[7],a[8]^^b[8]>>
Z8 == <<0,0,0,0,0,0,0,0>>
(* the linear orthomorphism: (hi, lo) |-> (hi xor lo, hi) *)
SigmaHL(h,lo) == h \o X8(h,lo)
Sigma(b) == TLCEval(SigmaHL(Hi(b), Lo(b)))
(* 8-byte little-endian counters, modulo 2^64 *)
RECURSIVE AddAt8(_,_,_)
AddAt8(p,i,c) == IF c = 0 \/ i > 8 THEN p
                ELSE LET t == p[i] + c IN AddAt8(TLCEval([p EXCEPT ![i] = t % 256]), i+1, t \div 256)
Add8(p,n) == AddAt8(p, 1, n)
LSB(b) == b[1] % 2
=============================================================================
