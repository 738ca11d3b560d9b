-------------------------------- MODULE AES --------------------------------
(* FIPS-197 AES (encryption direction) on byte tuples in memory order.      *)
(* The S-box is given as data and checked against its algebraic definition  *)
(* (inverse in GF(2^8) followed by the affine map) in CryptoSelfTest.       *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict

SBox == <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
    202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
    183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
    4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
    9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
    83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
    208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
    81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
    205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
    96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
    224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
    231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
    186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
    112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
    225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
    140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>

XTime(b) == IF b < 128 THEN 2*b ELSE (2*b - 256) ^^ 27
Mul2 == [i \in 1..256 |-> XTime(i-1)]
Sub(b) == SBox[b+1]
X2(b) == Mul2[b+1]

RECURSIVE GMul(_,_)
GMul(a,b) == IF b = 0 THEN 0
             ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
Rotl8(x,k) == ((x * 2^k) % 256) + (x \div 2^(8-k))
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a,b) = 1
SBoxOk(a) == LET x == GInv(a) IN
  Sub(a) = ((((99 ^^ x) ^^ Rotl8(x,1)) ^^ Rotl8(x,2)) ^^ Rotl8(x,3)) ^^ Rotl8(x,4)

X16v(a,b) == <<a[1]^^b[1],a[2]^^b[2],a[3]^^b[3],a[4]^^b[4],a[5]^^b[5],a[6]^^b[6],
  a[7]^^b[7],a[8]^^b[8],a[9]^^b[9],a[10]^^b[10],a[11]^^b[11],a[12]^^b[12],
  a[13]^^b[13],a[14]^^b[14],a[15]^^b[15],a[16]^^b[16]>>
X4v(a,b) == <<a[1]^^b[1],a[2]^^b[2],a[3]^^b[3],a[4]^^b[4]>>
X16(a,b) == S2(X16v,a,b)
X4(a,b) == S2(X4v,a,b)
Zero16 == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>

ShiftSub(s) == <<Sub(s[1]),Sub(s[6]),Sub(s[11]),Sub(s[16]),
                 Sub(s[5]),Sub(s[10]),Sub(s[15]),Sub(s[4]),
                 Sub(s[9]),Sub(s[14]),Sub(s[3]),Sub(s[8]),
                 Sub(s[13]),Sub(s[2]),Sub(s[7]),Sub(s[12])>>
(* x ^ 2x(a+b) pattern of MixColumns for the column s[i..i+3] and its parity t *)
MixColT(s,i,t) == <<(s[i]^^t)^^X2(s[i]^^s[i+1]), (s[i+1]^^t)^^X2(s[i+1]^^s[i+2]),
                    (s[i+2]^^t)^^X2(s[i+2]^^s[i+3]), (s[i+3]^^t)^^X2(s[i+3]^^s[i])>>
MixCol(s,i) == S3(MixColT, s, i, ((s[i]^^s[i+1])^^s[i+2])^^s[i+3])
MixColsV(s) == ((MixCol(s,1) \o MixCol(s,5)) \o MixCol(s,9)) \o MixCol(s,13)
MixCols(s) == S1(MixColsV, s)

(* key expansion for Nk = 4, 6, 8 words; result: sequence of 16-byte round keys *)
SubWord(w) == <<Sub(w[1]),Sub(w[2]),Sub(w[3]),Sub(w[4])>>
RotWord(w) == <<w[2],w[3],w[4],w[1]>>
Rcon == <<1,2,4,8,16,32,64,128,27,54>>
ExpandStep(w, n, nk) ==
  Append(w, X4(w[n-nk+1], IF n % nk = 0
           THEN X4(SubWord(RotWord(w[n])), <<Rcon[n \div nk],0,0,0>>)
           ELSE IF nk > 6 /\ n % nk = 4 THEN SubWord(w[n]) ELSE w[n]))
ExpandW(w0,nk,total) == Fold(LAMBDA w, i : ExpandStep(w, nk + i - 1, nk), w0, [i \in 1..(total-nk) |-> i])
RoundKeysN(key,nk) ==
  LET total == 4*(nk+7)
      w0 == [i \in 1..nk |-> <<key[4*i-3],key[4*i-2],key[4*i-1],key[4*i]>>]
      RK(w) == [r \in 1..(nk+7) |-> w[4*r-3] \o w[4*r-2] \o w[4*r-1] \o w[4*r]]
  IN S1(RK, ExpandW(w0, nk, total))
RoundKeys(key) == RoundKeysN(key,4)

Mid == [nr \in {11,13,15} |-> [i \in 1..(nr-2) |-> i+1]]
Rounds(s0,rk) == X16(S1(ShiftSub, Fold(LAMBDA s, r : X16(MixCols(ShiftSub(s)), rk[r]), s0, Mid[Len(rk)])), rk[Len(rk)])
Enc(rk, pt) == S2(Rounds, X16(pt, rk[1]), rk)
AES128(key, pt) == Enc(RoundKeys(key), pt)

=============================================================================
