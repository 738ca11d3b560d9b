-------------------------------- MODULE Garble -------------------------------
(* Garbling as both parties see it: the generator holds the zero label g of  *)
(* every wire, the evaluator one label e, and e = g xor (v ? delta : 0),     *)
(* where v is the plain value. Labels are 16 bytes in memory order.          *)
EXTENDS Blocks, FiniteSets
VARIABLES scheme, delta, start, wires, ands, pos, dist
gvars == <<scheme, delta, start, wires, ands, pos, dist>>
(* wires: sequence of [g, e, v]; ands: AND gates so far (-1: run was         *)
(* repositioned, not counted); pos: next tweak (8-byte counter, two per      *)
(* gate); dist: offsets, constants and start points seen so far              *)
GInit == scheme = "hg" /\ delta = <<>> /\ start = <<>> /\ wires = <<>> /\ ands = 0 /\ pos = Z8 /\ dist = {}
Odd(b) == LSB(b) = 1
GateBytes == IF scheme = "hg" THEN 32 ELSE 16
(* the evaluator's label is the right one; privacy-free labels show the value in their last bit *)
Right(g, e, v) == /\ e = (IF v = 1 THEN X16(g, delta) ELSE g)
                  /\ (scheme = "pf" => LSB(g) = 0 /\ LSB(e) = v)
(* half gates: two keys start xor (0 : tweak), start xor (0 : tweak+1);      *)
(* hash AES_k(s(x)) xor s(x)                                                 *)
Sched(k) == RoundKeys(X16(start, Z8 \o k))
HH(ks, x) == S2(LAMBDA s, y : X16(Enc(s, y), y), ks, Sigma(x))
If16(c, x) == IF c = 1 THEN x ELSE Zero16
HG2(a, b, ha, hb) == \* ha = <<H(a0),H(a1)>>, hb likewise
   LET t0 == X16(X16(ha[1], ha[2]), If16(LSB(b), delta))
       hh == X16(hb[1], hb[2])
   IN S2(LAMBDA t, h : [tab |-> t \o X16(h, a),
                        w |-> X16(X16(X16(ha[1], If16(LSB(a), t)), hb[1]), If16(LSB(b), h))], t0, hh)
HGTable(a, b, ks1, ks2) ==
   S2(LAMBDA ha, hb : HG2(a, b, ha, hb), <<HH(ks1, a), HH(ks1, X16(a, delta))>>, <<HH(ks2, b), HH(ks2, X16(b, delta))>>)
(* privacy-free: fixed key 0, hash AES_0(s(x) xor t) xor s(x) xor t with t = (tweak : 0), last bit forced *)
KS0 == RoundKeys(Zero16)
PFH(x, t) == S1(LAMBDA y : X16(Enc(KS0, y), y), X16(Sigma(x), Z8 \o t))
SetLow(b, v) == [b EXCEPT ![1] = (@ \div 2) * 2 + v]
PFTable(a, b, t) == S2(LAMBDA h0, h1 : [tab |-> X16(X16(h0, h1), b), w |-> h0],
                       SetLow(PFH(a, t), 0), SetLow(PFH(X16(a, delta), t), 1))
Gate(a, b, p) == IF scheme = "hg" THEN S2(LAMBDA x, y : HGTable(a, b, x, y), Sched(p), Sched(Add8(p, 1)))
                 ELSE PFTable(a, b, p)
=============================================================================
