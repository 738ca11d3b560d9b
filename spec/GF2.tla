-------------------------------- MODULE GF2 ---------------------------------
(* Polynomials over GF(2), little-endian limbs of LB bits; the field modulus *)
(* is x^(L*LB) + R with R inside the first limb.                             *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict
CONSTANTS LB, L, R
M == 2^LB
NBits == L*LB
Bit(a,i) == (a[(i \div LB)+1] \div 2^(i % LB)) % 2
ZeroP(n) == [i \in 1..n |-> 0]
XorV(a,b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
PX(a,b) == S2(XorV, a, b)
Shl(a) == [i \in 1..Len(a) |-> ((a[i]*2) % M) + (IF i = 1 THEN 0 ELSE a[i-1] \div (M \div 2))]
(* multiplication by x in the field *)
MulXV(a) == IF a[L] >= M \div 2 THEN [Shl(a) EXCEPT ![1] = @ ^^ R] ELSE Shl(a)
Down == [i \in 1..NBits |-> NBits - i]
HornerMod(a, acc, bit) == IF bit = 1 THEN PX(MulXV(acc), a) ELSE MulXV(acc)
MulModV(a, b) == Fold(LAMBDA acc, i : HornerMod(a, acc, Bit(b,i)), ZeroP(L), Down)
MulMod(a, b) == S2(MulModV, a, b)
(* product without reduction: 2L limbs *)
Wide(a) == a \o ZeroP(L)
HornerCl(w, acc, bit) == IF bit = 1 THEN PX(Shl(acc), w) ELSE Shl(acc)
ClMulV(a, b) == S1(LAMBDA w : Fold(LAMBDA acc, i : HornerCl(w, acc, Bit(b,i)), ZeroP(2*L), Down), Wide(a))
ClMul(a, b) == S2(ClMulV, a, b)
One == [i \in 1..L |-> IF i = 1 THEN 1 ELSE 0]
RP == [i \in 1..L |-> IF i = 1 THEN R ELSE 0]
(* hi * x^n + lo in the field *)
Reduce(lo, hi) == PX(lo, MulMod(hi, RP))
FromBits(f(_), n) == [i \in 1..(n \div LB) |-> Fold(LAMBDA acc, k : 2*acc + f((i-1)*LB + (LB-k)), 0, [k \in 1..LB |-> k])]
(* bit reversal, and the reflected product: operands and result bit-reversed *)
RevV(a) == FromBits(LAMBDA i : Bit(a, NBits-1-i), NBits)
Rev(a) == S1(RevV, a)
MulReflect(a, b) == Rev(MulMod(Rev(a), Rev(b)))
(* reduction of a reflected (2n-1)-bit product given as low and high halves *)
ReflLo(v) == FromBits(LAMBDA i : Bit(v, 2*NBits-2-i), NBits)
ReflHi(v) == FromBits(LAMBDA i : IF i = NBits-1 THEN 0 ELSE Bit(v, NBits-2-i), NBits)
ReduceReflect(lo, hi) == S1(LAMBDA v : Rev(Reduce(ReflLo(v), ReflHi(v))), lo \o hi)
(* vectors *)
Idx(n) == [i \in 1..n |-> i]
InnerRed(a, b) == Fold(LAMBDA acc, i : PX(acc, MulMod(a[i], b[i])), ZeroP(L), Idx(Len(a)))
InnerNoRed(a, b) == Fold(LAMBDA acc, i : PX(acc, ClMul(a[i], b[i])), ZeroP(2*L), Idx(Len(a)))
SumAll(a) == Fold(LAMBDA acc, i : PX(acc, a[i]), ZeroP(L), Idx(Len(a)))
Powers(s, n) == Fold(LAMBDA acc, i : Append(acc, IF i = 1 THEN s ELSE MulMod(acc[i-1], s)), <<>>, Idx(n))
Pack(v) == Fold(LAMBDA acc, i : PX(MulXV(acc), v[Len(v)+1-i]), ZeroP(L), Idx(Len(v)))
=============================================================================
