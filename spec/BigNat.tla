------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian limbs below B, without leading *)
(* zero limbs (zero is the empty sequence). B*B*limbs must fit in 31 bits:   *)
(* with B = 4096 products of up to 127 limbs (1524 bits) are exact in TLC.   *)
EXTENDS Integers, Sequences, TLC, Strict
CONSTANT B
LimbAt(a,i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(a,b) == IF a > b THEN a ELSE b
MinI(a,b) == IF a < b THEN a ELSE b
Seq1(n) == [i \in 1..n |-> i]
SeqDown(n) == [i \in 1..n |-> n + 1 - i]
(* drop leading zero limbs *)
NormV(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a
            ELSE LET k == CHOOSE k \in 0..(Len(a)-1) : (\A j \in (k+1)..Len(a) : a[j] = 0) /\ (k = 0 \/ a[k] # 0)
                 IN SubSeq(a, 1, k)
Norm(a) == S1(NormV, a)
(* carry propagation over arbitrary non-negative limb sums *)
CarryStep(acc, x) == <<Append(acc[1], (x + acc[2]) % B), (x + acc[2]) \div B>>
RECURSIVE CarryOut(_)
CarryOut(c) == IF c = 0 THEN <<>> ELSE <<c % B>> \o CarryOut(c \div B)
FinishC(acc) == Norm(acc[1] \o CarryOut(acc[2]))
Carry(seq) == S1(FinishC, Fold(CarryStep, <<<<>>, 0>>, seq))
OfInt(n) == CarryOut(n)
AddV(a,b) == Carry([i \in 1..MaxI(Len(a),Len(b)) |-> LimbAt(a,i) + LimbAt(b,i)])
Add(a,b) == S2(AddV, a, b)
(* comparison: -1, 0, 1 *)
CmpV(a,b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
             ELSE IF a = b THEN 0
             ELSE LET k == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in (k+1)..Len(a) : a[j] = b[j]
                  IN IF a[k] < b[k] THEN -1 ELSE 1
Cmp(a,b) == S2(CmpV, a, b)
Leq(a,b) == Cmp(a,b) <= 0
Lt(a,b) == Cmp(a,b) < 0
(* a - b for a >= b *)
BorrowStep(acc, x) == LET t == x - acc[2] IN IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>
SubV(a,b) == S1(LAMBDA r : Norm(r[1]), Fold(BorrowStep, <<<<>>, 0>>, [i \in 1..Len(a) |-> a[i] - LimbAt(b,i)]))
Sub(a,b) == S2(SubV, a, b)
ColSum(a,b,k) == Fold(LAMBDA acc, i : acc + a[i]*b[k+1-i], 0,
                      [j \in 1..(MinI(k,Len(a)) - MaxI(1,k+1-Len(b)) + 1) |-> MaxI(1,k+1-Len(b)) + j - 1])
MulV(a,b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carry([k \in 1..(Len(a)+Len(b)-1) |-> ColSum(a,b,k)])
Mul(a,b) == S2(MulV, a, b)
(* bits *)
LB == CHOOSE k \in 1..15 : 2^k = B
BitAt(a,i) == IF (i \div LB) + 1 > Len(a) THEN 0 ELSE (a[(i \div LB)+1] \div 2^(i % LB)) % 2
NumBits(a) == LB * Len(a)
Dbl1(a, c) == Carry([i \in 1..Len(a) |-> 2*a[i] + (IF i = 1 THEN c ELSE 0)])
Dbl(a, c) == IF a = <<>> THEN OfInt(c) ELSE S2(Dbl1, a, c)
(* quotient and remainder by binary long division *)
DivStep(m, acc, r) == IF Lt(r, m) THEN <<Dbl(acc[1], 0), r>> ELSE <<Dbl(acc[1], 1), Sub(r, m)>>
DivModV(a, m) == Fold(LAMBDA acc, i : S3(DivStep, m, acc, Dbl(acc[2], BitAt(a, i-1))), <<<<>>, <<>>>>, SeqDown(NumBits(a)))
DivMod(a, m) == S2(DivModV, a, m)
RedStep(m, r) == IF Lt(r, m) THEN r ELSE Sub(r, m)
ModV(a, m) == Fold(LAMBDA acc, i : S2(RedStep, m, Dbl(acc, BitAt(a, i-1))), <<>>, SeqDown(NumBits(a)))
Mod(a, m) == IF Lt(a, m) THEN a ELSE S2(ModV, a, m)
Pow2(k) == [i \in 1..((k \div LB)+1) |-> IF i = (k \div LB)+1 THEN 2^(k % LB) ELSE 0]
ModPow2V(a, k) == Norm([i \in 1..MinI(Len(a), (k+LB-1) \div LB) |-> IF i*LB <= k THEN a[i] ELSE a[i] % 2^(k % LB)])
ModPow2(a, k) == S2(ModPow2V, a, k)
(* from little-endian bytes, LB = 12: three bytes are two limbs *)
ByteAt(s,i) == IF i <= Len(s) THEN s[i] ELSE 0
FromBytesLE(s) == Norm([i \in 1..(((2*Len(s)+2) \div 3)) |->
    IF i % 2 = 1 THEN LET k == 3*((i-1) \div 2) IN ByteAt(s,k+1) + 256*(ByteAt(s,k+2) % 16)
    ELSE LET k == 3*((i-2) \div 2) IN (ByteAt(s,k+2) \div 16) + 16*ByteAt(s,k+3)])
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
FromBytesBE(s) == FromBytesLE(RevSeq(s))
=============================================================================
