-------------------------------- MODULE SHA3 --------------------------------
(* FIPS-202 SHA3-256. A lane is four 16-bit limbs, least significant first; *)
(* the state is the sequence of lanes (x, y) at index x + 5*y + 1.          *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
RhoOff == <<0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14>>
(* round constants by the LFSR of FIPS-202: rc(t) = x^t mod x^8+x^6+x^5+x^4+1, the table below is checked against it *)
RECURSIVE Lfsr(_, _)
Lfsr(r, t) == IF t = 0 THEN r % 2
              ELSE Lfsr(IF r >= 128 THEN ((2*r) % 256) ^^ 113 ELSE 2*r, t-1)
RcBit(ir, z) == (* bit z of the constant of round ir *)
  LET js == {j \in 0..6 : P2[j+1] - 1 = z} IN IF js = {} THEN 0 ELSE Lfsr(1, 7*ir + (CHOOSE j \in js : TRUE))
RcLimb(ir, k) == LET b(i) == RcBit(ir, 16*k + i) * P2[i+1] IN
  b(0)+b(1)+b(2)+b(3)+b(4)+b(5)+b(6)+b(7)+b(8)+b(9)+b(10)+b(11)+b(12)+b(13)+b(14)+b(15)
RCs == <<<<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>, <<32907,0,0,0>>,
  <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>, <<138,0,0,0>>, <<136,0,0,0>>,
  <<32777,32768,0,0>>, <<10,32768,0,0>>, <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>,
  <<32771,0,0,32768>>, <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
  <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>>>>

LX(a, b) == <<a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4]>>
LX5(a, b, c, d, e) == LET g(k) == (((a[k]^^b[k])^^c[k])^^d[k])^^e[k] IN <<g(1), g(2), g(3), g(4)>>
Lim(a, k) == a[(k % 4) + 1]
Rot1(a, q, s, t) == LET g(j) == (((Lim(a, j+4-q) * s) % 65536) + (Lim(a, j+3-q) \div t)) IN <<g(0), g(1), g(2), g(3)>>
RotL(a, n) == Rot1(a, n \div 16, P2[(n % 16) + 1], P2[17 - (n % 16)])
Xc(i) == (i-1) % 5          \* coordinates of lane i
Yc(i) == (i-1) \div 5
At(x, y) == ((x % 5) + 5*(y % 5)) + 1
I25 == 1..25
XI == TLCEval([i \in I25 |-> Xc(i) + 1])
Col(s) == TLCEval([x \in 1..5 |-> LX5(s[x], s[x+5], s[x+10], s[x+15], s[x+20])])
Rc1(c) == TLCEval([x \in 1..5 |-> RotL(c[x], 1)])
Dx2(c, r) == TLCEval([x \in 1..5 |-> LX(c[((x+3) % 5) + 1], r[(x % 5) + 1])])
Dx(c) == S2(Dx2, c, Rc1(c))
ThetaD(s, d) == TLCEval([i \in I25 |-> LX(s[i], d[XI[i]])])
Theta(s) == S2(ThetaD, s, S1(Dx, S1(Col, s)))
(* B[y, 2x+3y] = rot(A[x,y]); inverse: B at (X,Y) comes from x = X+3Y, y = X *)
PiFrom == TLCEval([i \in I25 |-> At(Xc(i) + 3*Yc(i), Xc(i))])
N1 == TLCEval([i \in I25 |-> At(Xc(i)+1, Yc(i))])
N2 == TLCEval([i \in I25 |-> At(Xc(i)+2, Yc(i))])
RhoPi(s) == TLCEval([i \in I25 |-> S1(LAMBDA k : S2(RotL, s[k], RhoOff[k]), PiFrom[i])])
ChiL(a, b, c) == LET g(k) == a[k] ^^ ((65535 - b[k]) & c[k]) IN <<g(1), g(2), g(3), g(4)>>
Chi(s) == TLCEval([i \in I25 |-> ChiL(s[i], s[N1[i]], s[N2[i]])])
Round(s, i) == S1(LAMBDA c : [c EXCEPT ![1] = LX(@, RCs[i])], S1(Chi, S1(RhoPi, S1(Theta, s))))
T24 == [i \in 1..24 |-> i]
KeccakF(s) == Fold(Round, s, T24)

Rate == 136
ZeroState == [i \in I25 |-> <<0,0,0,0>>]
(* xor bytes off+1 .. off+Rate of m into the first 17 lanes *)
Absorb3(s, m, off) == TLCEval([i \in I25 |-> IF i > 17 THEN s[i] ELSE
   LET b == off + 8*(i-1) IN LX(s[i], <<m[b+1] + 256*m[b+2], m[b+3] + 256*m[b+4], m[b+5] + 256*m[b+6], m[b+7] + 256*m[b+8]>>)])
Pad3(m) == LET r == Rate - (Len(m) % Rate) IN
   m \o [i \in 1..r |-> (IF i = 1 THEN 6 ELSE 0) + (IF i = r THEN 128 ELSE 0)]
Offs3(n) == [i \in 1..(n \div Rate) |-> Rate*(i-1)]
Squeeze(s) == [i \in 1..32 |-> LET w == s[((i-1) \div 8) + 1][(((i-1) % 8) \div 2) + 1] IN IF i % 2 = 1 THEN w % 256 ELSE w \div 256]
SHA3v(p) == S1(Squeeze, Fold(LAMBDA s, o : KeccakF(Absorb3(s, p, o)), ZeroState, Offs3(Len(p))))
SHA3(m) == S1(SHA3v, Pad3(m))

(* The circuit hashes a string of bits, least significant bit of each byte   *)
(* first, completed with zero bits to a whole number of bytes.               *)
BitAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Pack(b) == [k \in 1..((Len(b)+7) \div 8) |->
   LET o == 8*(k-1) IN BitAt(b,o+1) + 2*BitAt(b,o+2) + 4*BitAt(b,o+3) + 8*BitAt(b,o+4) + 16*BitAt(b,o+5) + 32*BitAt(b,o+6) + 64*BitAt(b,o+7) + 128*BitAt(b,o+8)]
RECURSIVE Cat(_, _)
Cat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o Cat(ps, i+1)
SHA3Bits(parts) == S1(LAMBDA b : S1(SHA3, Pack(b)), Cat(parts, 1))
=============================================================================
