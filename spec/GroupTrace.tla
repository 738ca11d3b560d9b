----------------------------- MODULE GroupTrace -----------------------------
(* Recorded histories over points and big integers, against the cyclic group *)
(* of the P-256 order and exact natural-number arithmetic.                   *)
EXTENDS TraceBase, BigNat
VARIABLES l, reg, known, rnd
PP == <<4095,4095,4095,4095,4095,4095,4095,4095,0,0,0,0,0,0,0,0,1,0,3840,4095,4095,15>>
NN == <<1361,1586,764,3244,953,2127,1950,2673,2733,3695,4028,4095,4095,4095,4095,4095,0,0,3840,4095,4095,15>>
GEnc == <<4,107,23,209,242,225,44,66,71,248,188,230,229,99,164,64,242,119,3,125,129,45,235,51,160,244,161,57,69,216,152,194,150,79,227,66,226,254,26,127,155,142,231,235,74,124,15,158,22,43,206,51,87,107,49,94,206,203,182,64,104,55,191,81,245>>
IdEnc == <<0>>
AddN(a,b) == Mod(Add(a,b), NN)
MulN(a,b) == Mod(Mul(a,b), NN)
NegN(a) == IF a = <<>> THEN <<>> ELSE Sub(NN, a)
G == INSTANCE Group WITH AddS <- AddN, MulS <- MulN, NegS <- NegN
(* field arithmetic and the division-free addition law *)
FAdd(a,b) == Mod(Add(a,b), PP)
FSub(a,b) == Mod(Sub(Add(a,PP), b), PP)
FMul(a,b) == Mod(Mul(a,b), PP)
XOf(e) == FromBytesBE(SubSeq(e,2,33))
YOf(e) == FromBytesBE(SubSeq(e,34,65))
LawDD(p,q,r,dx,dy) ==
  S2(LAMBDA d2, s :
       /\ FMul(r[1],d2) = FSub(FMul(dy,dy), FMul(s,d2))
       /\ FMul(r[2],dx) = FSub(FMul(dy,FSub(p[1],r[1])), FMul(p[2],dx)),
     FMul(dx,dx), FAdd(p[1],q[1]))
DX(p,q) == IF p = q THEN FAdd(p[2],p[2]) ELSE FSub(q[1],p[1])
DY(p,q) == IF p = q THEN S1(LAMBDA s : FSub(FAdd(s,FAdd(s,s)), OfInt(3)), FMul(p[1],p[1])) ELSE FSub(q[2],p[2])
LawV(p,q,r) == S2(LAMBDA dx, dy : LawDD(p,q,r,dx,dy), DX(p,q), DY(p,q))
Pt(e) == <<XOf(e), YOf(e)>>
Law(ea,eb,er) == IF ea = IdEnc \/ eb = IdEnc \/ er = IdEnc THEN TRUE ELSE S3(LawV, Pt(ea), Pt(eb), Pt(er))
Init == l = 1 /\ reg = <<<<>>,<<>>,<<>>,<<>>>> /\ known = {<<<<>>,IdEnc>>, <<<<1>>,GEnc>>} /\ rnd = {}
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Pts == UNCHANGED rnd /\ G!Reads(ev.regs)
Start == Is("start") /\ reg' = <<<<>>,<<>>,<<>>,<<>>>> /\ known' = {<<<<>>,IdEnc>>, <<<<1>>,GEnc>>} /\ UNCHANGED rnd
Gen == Is("gen") /\ G!Put(ev.d, <<1>>, ev.out) /\ Pts
MulGen == Is("mulgen") /\ G!Put(ev.d, Mod(FromBytesBE(ev.m), NN), ev.out) /\ Pts
Via == Is("via") /\ Mod(FromBytesBE(ev.m), NN) = reg[ev.a] /\ G!Put(ev.d, reg[ev.a], ev.out) /\ Pts
AddP == Is("add") /\ (IF ev.law THEN Law(ev.ea, ev.eb, ev.out) ELSE TRUE) /\ G!Put(ev.d, AddN(reg[ev.a], reg[ev.b]), ev.out) /\ Pts
MulP == Is("mul") /\ G!Put(ev.d, MulN(reg[ev.a], Mod(FromBytesBE(ev.m), NN)), ev.out) /\ Pts
InvP == Is("inv") /\ G!Put(ev.d, NegN(reg[ev.a]), ev.out) /\ Pts
Copy == Is("copy") /\ G!Put(ev.d, reg[ev.a], ev.out) /\ Pts
Eq == Is("eq") /\ ev.res = (reg[ev.a] = reg[ev.b]) /\ UNCHANGED <<reg,known>> /\ Pts
Eqi == Is("eqi") /\ ev.res = (reg[ev.a] = NegN(reg[ev.b])) /\ UNCHANGED <<reg,known>> /\ Pts
(* decoding accepts exactly the encodings of curve points (65-byte form); whatever else it accepts is a point *)
CB == FromBytesBE(<<90,198,53,216,170,58,147,231,179,235,189,85,118,152,134,188,101,29,6,176,204,83,176,246,59,206,60,62,39,210,96,75>>)
CurveXY(x,y) == Lt(x,PP) /\ Lt(y,PP) /\ FMul(y,y) = FAdd(FSub(FMul(FMul(x,x),x), Mod(FAdd(x,FAdd(x,x)),PP)), CB)
IsPoint(e) == e = IdEnc \/ (Len(e) = 65 /\ e[1] = 4 /\ S2(CurveXY, XOf(e), YOf(e)))
Bad == Is("bad") /\ UNCHANGED <<reg,known,rnd>>
       /\ (IF IsPoint(ev.in) THEN ev.out = ev.in
           ELSE IF ev.in[1] = 4 \/ Len(ev.in) \notin {33,65} THEN ev.out = <<>>
           ELSE ev.out = <<>> \/ IsPoint(ev.out))
RandS == Is("rands") /\ Lt(FromBytesBE(ev.out), NN) /\ UNCHANGED <<reg,known,rnd>>
(* big integers, big-endian byte strings in minimal form *)
Bn(s) == FromBytesBE(s)
Minimal(s) == s = <<>> \/ s[1] # 0
Big(r) == UNCHANGED <<reg,known,rnd>> /\ Minimal(ev.out) /\ Bn(ev.out) = r
BBin == Is("bbin") /\ Big(Bn(ev.a))
BAdd == Is("badd") /\ Big(Add(Bn(ev.a), Bn(ev.b)))
BMul == Is("bmul") /\ Big(Mul(Bn(ev.a), Bn(ev.b)))
BMod == Is("bmod") /\ Big(Mod(Bn(ev.a), Bn(ev.m)))
BAddM == Is("baddm") /\ Big(Mod(Add(Bn(ev.a), Bn(ev.b)), Bn(ev.m)))
BMulM == Is("bmulm") /\ Big(Mod(Mul(Bn(ev.a), Bn(ev.b)), Bn(ev.m)))
Rand == Is("rand") /\ Lt(Bn(ev.out), NN) /\ ev.out \notin rnd /\ rnd' = rnd \cup {ev.out} /\ UNCHANGED <<reg,known>>
Order == Is("order") /\ Bn(ev.out) = NN /\ UNCHANGED <<reg,known,rnd>>
Next == Start \/ Gen \/ MulGen \/ Via \/ AddP \/ MulP \/ InvP \/ Copy \/ Eq \/ BBin \/ BAdd \/ BMul \/ BMod \/ BAddM \/ BMulM \/ Rand \/ RandS \/ Eqi \/ Bad \/ Order
=============================================================================
