------------------------------- MODULE IntSem -------------------------------
(* Two's-complement semantics: on machine integers for small widths, and on   *)
(* limb sequences (BigNat) for any width. A value is its unsigned pattern.    *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict
N == INSTANCE BigNat WITH B <- 4096
(* ---- small *)
Sgn(x, w) == IF x >= 2^(w-1) THEN x - 2^w ELSE x
U(x, w) == x % 2^w
AbsI(x) == IF x < 0 THEN -x ELSE x
Quot(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
SmallDiv(x, y, w) == IF y = 0 THEN (IF Sgn(x, w) < 0 THEN U(1, w) ELSE U(-1, w)) ELSE U(Quot(Sgn(x, w), Sgn(y, w)), w)
SmallMod(x, y, w) == IF y = 0 THEN x ELSE U(Sgn(x, w) - Quot(Sgn(x, w), Sgn(y, w)) * Sgn(y, w), w)
B2(p) == IF p THEN 1 ELSE 0
RECURSIVE Pop(_)
Pop(x) == IF x = 0 THEN 0 ELSE (x % 2) + Pop(x \div 2)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
SmallOp(op, x, y, w) ==
  CASE op = "add" -> U(x + y, w) [] op = "sub" -> U(x - y, w) [] op = "mul" -> U(x * y, w)
    [] op = "and" -> x & y [] op = "or" -> x | y [] op \in {"xor", "xore"} -> x ^^ y
    [] op = "neg" -> U(-x, w) [] op = "abs" -> U(AbsI(Sgn(x, w)), w)
    [] op = "div" -> SmallDiv(x, y, w) [] op = "mod" -> SmallMod(x, y, w)
    [] op = "geq" -> B2(Sgn(x, w) >= Sgn(y, w)) [] op = "gt" -> B2(Sgn(x, w) > Sgn(y, w))
    [] op = "lt" -> B2(Sgn(x, w) < Sgn(y, w)) [] op = "leq" -> B2(Sgn(x, w) <= Sgn(y, w))
    [] op = "eq" -> B2(x = y) [] op = "neq" -> B2(x # y)
    [] op = "popc" -> Pop(x) [] op = "clz" -> w - BitLen(x)
(* ---- any width *)
Neg(X, w) == N!ModPow2(N!Sub(N!Pow2(w), X), w)
SignBit(X, w) == N!BitAt(X, w - 1)
AbsN(X, w) == IF SignBit(X, w) = 1 THEN Neg(X, w) ELSE X
PadTo(a, n) == [i \in 1..n |-> N!LimbAt(a, i)]
Limbwise(op(_, _), a, b) == LET n == N!MaxI(Len(a), Len(b)) IN N!Norm([i \in 1..n |-> op(N!LimbAt(a, i), N!LimbAt(b, i))])
Bias(X, w) == N!ModPow2(N!Add(X, N!Pow2(w - 1)), w)
CmpS(X, Y, w) == N!Cmp(Bias(X, w), Bias(Y, w))
DivW(X, Y, w) ==
  IF Y = <<>> THEN (IF SignBit(X, w) = 1 THEN N!ModPow2(<<1>>, w) ELSE Neg(<<1>>, w))
  ELSE LET q == N!DivMod(AbsN(X, w), AbsN(Y, w))[1] IN
       IF SignBit(X, w) = SignBit(Y, w) THEN N!ModPow2(q, w) ELSE Neg(N!ModPow2(q, w), w)
ModW(X, Y, w) == IF Y = <<>> THEN X
  ELSE LET r == N!DivMod(AbsN(X, w), AbsN(Y, w))[2] IN IF SignBit(X, w) = 1 THEN Neg(r, w) ELSE r
PopW(X) == Fold(LAMBDA acc, x : acc + Pop(x), 0, X)
BitLenW(X) == IF X = <<>> THEN 0 ELSE 12 * (Len(X) - 1) + BitLen(X[Len(X)])
OfBool(p) == IF p THEN <<1>> ELSE <<>>
WideOp(op, X, Y, w) ==
  CASE op = "add" -> N!ModPow2(N!Add(X, Y), w) [] op = "sub" -> N!ModPow2(N!Add(X, Neg(Y, w)), w)
    [] op = "mul" -> N!ModPow2(N!Mul(X, Y), w)
    [] op = "and" -> Limbwise(LAMBDA a, b : a & b, X, Y) [] op = "or" -> Limbwise(LAMBDA a, b : a | b, X, Y)
    [] op \in {"xor", "xore"} -> Limbwise(LAMBDA a, b : a ^^ b, X, Y)
    [] op = "neg" -> Neg(X, w) [] op = "abs" -> AbsN(X, w)
    [] op = "div" -> DivW(X, Y, w) [] op = "mod" -> ModW(X, Y, w)
    [] op = "geq" -> OfBool(CmpS(X, Y, w) >= 0) [] op = "gt" -> OfBool(CmpS(X, Y, w) > 0)
    [] op = "lt" -> OfBool(CmpS(X, Y, w) < 0) [] op = "leq" -> OfBool(CmpS(X, Y, w) <= 0)
    [] op = "eq" -> OfBool(X = Y) [] op = "neq" -> OfBool(X # Y)
    [] op = "popc" -> N!OfInt(PopW(X)) [] op = "clz" -> N!OfInt(w - BitLenW(X))
(* result width: comparisons give one bit, counts as many as they need, the rest w *)
CmpOps == {"geq", "gt", "lt", "leq", "eq", "neq"}
WidthOk(op, w, rw) == IF op \in CmpOps THEN rw = 1 ELSE IF op \in {"popc", "clz"} THEN (rw > 30 \/ 2^(rw - 1) > w) ELSE rw = w
(* modular exponentiation by squaring *)
ModMul(a, b, q) == N!Mod(N!Mul(a, b), q)
MEStep(q, acc, bit) == <<IF bit = 1 THEN ModMul(acc[1], acc[2], q) ELSE acc[1], ModMul(acc[2], acc[2], q)>>
ModExp(b, p, pw, q) == Fold(LAMBDA acc, i : S3(MEStep, q, acc, N!BitAt(p, i - 1)), <<<<1>>, b>>, [i \in 1..pw |-> i])[1]
RECURSIVE PowMod(_, _, _)
PowMod(b, p, q) == IF p = 0 THEN 1 % q ELSE (b * PowMod(b, p - 1, q)) % q
=============================================================================
