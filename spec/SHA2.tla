-------------------------------- MODULE SHA2 --------------------------------
(* FIPS-180-4 SHA-256 and SHA-1. A 32-bit word is a pair <<hi16, lo16>>      *)
(* because TLC integers are 32 bit signed.                                   *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict

H256 == <<<<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
    <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>
K256 == <<<<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
    <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
    <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
    <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
    <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
    <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
    <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
    <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
    <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
    <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
    <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
    <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
    <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
    <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
    <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
    <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>
H1IV == <<<<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>,
    <<50130,57840>>>>
K1C == <<<<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>>>>

W2(a,b) == LET lo == a[2]+b[2] IN <<(a[1]+b[1]+(lo \div 65536)) % 65536, lo % 65536>>
W4v(a,b,c,d) == LET lo == a[2]+b[2]+c[2]+d[2] IN <<(a[1]+b[1]+c[1]+d[1]+(lo \div 65536)) % 65536, lo % 65536>>
W4(a,b,c,d) == S1(LAMBDA t : W4v(t[1],t[2],t[3],t[4]), <<a,b,c,d>>)
W5v(a,b,c,d,e) == LET lo == a[2]+b[2]+c[2]+d[2]+e[2]
                 IN <<(a[1]+b[1]+c[1]+d[1]+e[1]+(lo \div 65536)) % 65536, lo % 65536>>
W5(a,b,c,d,e) == S1(LAMBDA t : W5v(t[1],t[2],t[3],t[4],t[5]), <<a,b,c,d,e>>)
WX(a,b) == <<a[1]^^b[1], a[2]^^b[2]>>
WX3(a,b,c) == S1(LAMBDA t : <<(t[1][1]^^t[2][1])^^t[3][1], (t[1][2]^^t[2][2])^^t[3][2]>>, <<a,b,c>>)
(* rotate right by n < 16 (p = 2^n, q = 2^(16-n)); by n >= 16 after swapping halves *)
RotS(a,p,q) == <<(a[1] \div p) + ((a[2] % p) * q), (a[2] \div p) + ((a[1] % p) * q)>>
Sw(a) == <<a[2],a[1]>>
ShrS(a,p,q) == <<a[1] \div p, (a[2] \div p) + ((a[1] % p) * q)>>
Sig0(a) == WX3(RotS(a,4,16384), RotS(a,8192,8), RotS(Sw(a),64,1024))         \* 2 13 22
Sig1(a) == WX3(RotS(a,64,1024), RotS(a,2048,32), RotS(Sw(a),512,128))        \* 6 11 25
sg0(a) == WX3(RotS(a,128,512), RotS(Sw(a),4,16384), ShrS(a,8,8192))          \* 7 18 shr3
sg1(a) == WX3(RotS(Sw(a),2,32768), RotS(Sw(a),8,8192), ShrS(a,1024,64))      \* 17 19 shr10
Not16(x) == 65535 - x
Ch(e,f,g) == <<(e[1] & f[1]) ^^ (Not16(e[1]) & g[1]), (e[2] & f[2]) ^^ (Not16(e[2]) & g[2])>>
Maj(a,b,c) == <<((a[1] & b[1]) ^^ (a[1] & c[1])) ^^ (b[1] & c[1]),
                ((a[2] & b[2]) ^^ (a[2] & c[2])) ^^ (b[2] & c[2])>>

WordAt(m, off, i) == <<m[off+4*i+1]*256 + m[off+4*i+2], m[off+4*i+3]*256 + m[off+4*i+4]>>
First16(m, off) == <<WordAt(m,off,0),WordAt(m,off,1),WordAt(m,off,2),WordAt(m,off,3),WordAt(m,off,4),
  WordAt(m,off,5),WordAt(m,off,6),WordAt(m,off,7),WordAt(m,off,8),WordAt(m,off,9),WordAt(m,off,10),
  WordAt(m,off,11),WordAt(m,off,12),WordAt(m,off,13),WordAt(m,off,14),WordAt(m,off,15)>>

(* One round with a sliding window of the last 16 schedule words; folds instead *)
(* of recursion because TLC's evaluation contexts grow with recursion depth     *)
T64 == [i \in 1..64 |-> i]
T80 == [i \in 1..80 |-> i]
Round256(v, t1, t2) == <<W2(t1,t2), v[1], v[2], v[3], W2(v[4],t1), v[5], v[6], v[7]>>
Step256(a, t) == LET v == a[1] w == a[2] IN
  <<S3(Round256, v, W5(v[8], Sig1(v[5]), Ch(v[5],v[6],v[7]), K256[t], w[1]), S2(W2, Sig0(v[1]), Maj(v[1],v[2],v[3]))),
    Append(Tail(w), W4(sg1(w[15]), w[10], sg0(w[2]), w[1]))>>
R256(v, w, t) == Fold(Step256, <<v, w>>, T64)[1]
Add8(h, v) == <<W2(h[1],v[1]),W2(h[2],v[2]),W2(h[3],v[3]),W2(h[4],v[4]),W2(h[5],v[5]),W2(h[6],v[6]),W2(h[7],v[7]),W2(h[8],v[8])>>
Compress256(h, m, off) == S2(Add8, h, R256(h, First16(m,off), 1))
Offs(off, end) == [i \in 1..(IF off >= end THEN 0 ELSE ((end - off + 63) \div 64)) |-> off + 64*(i-1)]
BlocksUpTo(h, m, off, end) == Fold(LAMBDA a, o : Compress256(a, m, o), h, Offs(off, end))
Blocks256(h, m, off) == BlocksUpTo(h, m, off, Len(m))
WBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
(* length field: 64-bit big endian bit count; messages here are below 2^28 bytes *)
LenF(n) == <<0,0,0,0, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>
Padded(m) == m \o <<128>> \o [i \in 1..((119 - (Len(m) % 64)) % 64) |-> 0] \o LenF(Len(m))
Flat8(h) == WBytes(h[1]) \o WBytes(h[2]) \o WBytes(h[3]) \o WBytes(h[4]) \o WBytes(h[5]) \o WBytes(h[6]) \o WBytes(h[7]) \o WBytes(h[8])
SHA256(m) == S1(Flat8, S1(LAMBDA p : Blocks256(H256, p, 0), Padded(m)))

(* SHA-1 compression *)
Rotl1(a) == RotS(Sw(a),32768,2)     \* rotl 1 = rotr 31 = swap, rotr 15
Rotl5(a) == RotS(Sw(a),2048,32)     \* rotr 27 = swap, rotr 11
Rotl30(a) == RotS(a,4,16384)        \* rotr 2
F1(t,b,c,d) == IF t <= 20 THEN Ch(b,c,d)
               ELSE IF t <= 40 THEN WX3(b,c,d) ELSE IF t <= 60 THEN Maj(b,c,d) ELSE WX3(b,c,d)
Step1(a, t) == LET v == a[1] w == a[2] IN
  <<<<W5(Rotl5(v[1]), F1(t,v[2],v[3],v[4]), v[5], K1C[((t-1) \div 20)+1], w[1]), v[1], Rotl30(v[2]), v[3], v[4]>>,
    Append(Tail(w), Rotl1(WX(WX3(w[14],w[9],w[3]), w[1])))>>
R1(v, w, t) == Fold(Step1, <<v, w>>, T80)[1]
Add5(h, v) == <<W2(h[1],v[1]),W2(h[2],v[2]),W2(h[3],v[3]),W2(h[4],v[4]),W2(h[5],v[5])>>
Compress1(h, m, off) == S2(Add5, h, R1(h, First16(m,off), 1))
=============================================================================
