---------------------------- MODULE BigNatModel -----------------------------
(* BigNat against TLC's own integers, exhaustively with small limbs.         *)
EXTENDS BigNat
CONSTANT MAX
VARIABLES x, y
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + B * Val(Tail(a))
Init == x \in 0..MAX /\ y \in 0..MAX
Next == UNCHANGED <<x,y>>
X == OfInt(x)
Y == OfInt(y)
AddOk == Add(X,Y) = OfInt(x+y)
MulOk == Mul(X,Y) = OfInt(x*y)
SubOk == x >= y => Sub(X,Y) = OfInt(x-y)
CmpOk == Cmp(X,Y) = IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1
DivOk == y > 0 => DivMod(X,Y) = <<OfInt(x \div y), OfInt(x % y)>> /\ Mod(X,Y) = OfInt(x % y)
PowOk == \A k \in 0..7 : ModPow2(X,k) = OfInt(x % 2^k) /\ Pow2(k) = OfInt(2^k) /\ BitAt(X,k) = (x \div 2^k) % 2
ValOk == Val(X) = x
=============================================================================
