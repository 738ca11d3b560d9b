----------------------------- MODULE ArithModel -----------------------------
(* The bit-level algorithms of secret integers (ripple adder and subtractor,  *)
(* shift-and-add product, restoring division, conditional negation, absolute  *)
(* value, extended comparison, bit counting, secret shifts) against the       *)
(* two's-complement semantics of IntSem, for every width up to W and all      *)
(* operands. Bits are sequences, least significant first.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, Variant
VARIABLES w, a, b
S == INSTANCE IntSem
Init == w \in 1..W /\ a \in 0..(2^w - 1) /\ b \in 0..(2^w - 1)
Next == FALSE /\ UNCHANGED <<w, a, b>>
X(x, y) == (x + y) % 2
Bits(v, n) == [i \in 1..n |-> (v \div 2^(i-1)) % 2]
RECURSIVE ValR(_, _)
ValR(s, i) == IF i > Len(s) THEN 0 ELSE s[i] * 2^(i-1) + ValR(s, i + 1)
Val(s) == ValR(s, 1)
(* adder: carry' = c xor ((a xor c) and (b xor c)); returns <<bits, carry>> *)
RECURSIVE AddR(_, _, _, _, _)
AddR(x, y, c, i, acc) == IF i > Len(x) THEN <<acc, c>>
  ELSE AddR(x, y, X(c, X(x[i], c) * X(y[i], c)), i + 1, Append(acc, X(X(x[i], y[i]), c)))
Add(x, y) == AddR(x, y, 0, 1, <<>>)[1]
RECURSIVE SubR(_, _, _, _, _)
SubR(x, y, c, i, acc) == IF i > Len(x) THEN <<acc, c>>
  ELSE SubR(x, y, X(c, X(x[i], y[i]) * (IF Variant = "borrow" THEN X(c, x[i]) ELSE X(c, y[i]))), i + 1, Append(acc, X(X(x[i], y[i]), c)))
Sub(x, y) == SubR(x, y, 0, 1, <<>>)[1]
RECURSIVE MulR(_, _, _, _)
MulR(x, y, i, sum) == IF i > Len(x) THEN sum
  ELSE LET n == Len(x) - i + 1
           part == Add(SubSeq(sum, i, Len(x)), [k \in 1..n |-> x[k] * y[i]])
       IN MulR(x, y, i + 1, SubSeq(sum, 1, i - 1) \o part)
Mul(x, y) == MulR(x, y, 1, [i \in 1..Len(x) |-> 0])
Or(p, q) == IF p + q > 0 THEN 1 ELSE 0
Ite(c, x, y) == [i \in 1..Len(x) |-> IF c = 1 THEN x[i] ELSE y[i]]
(* does any of the top k bits of y matter for a subtraction at position i *)
Over(y, i) == IF Variant = "nooverflow" THEN 0 ELSE IF \E k \in (Len(y) - i + 1)..Len(y) : y[k] = 1 THEN 1 ELSE 0
RECURSIVE DivR(_, _, _, _)
DivR(rem, y, i, quot) == IF i < 0 THEN <<quot, rem>>
  ELSE LET n == Len(y) - i
           hi == SubSeq(rem, i + 1, Len(y))
           sb == SubR(hi, SubSeq(y, 1, n), 0, 1, <<>>)
           bo == Or(sb[2], Over(y, i))
       IN DivR(SubSeq(rem, 1, i) \o Ite(bo, hi, sb[1]), y, i - 1, <<1 - bo>> \o quot)
DivU(x, y) == DivR(x, y, Len(x) - 1, <<>>)
RECURSIVE CondNegR(_, _, _, _, _)
CondNegR(c, x, cc, i, acc) == IF i > Len(x) THEN acc
  ELSE LET d == X(x[i], c) IN CondNegR(c, x, cc * d, i + 1, Append(acc, X(d, cc)))
CondNeg(c, x) == CondNegR(c, x, c, 1, <<>>)
Top(x) == x[Len(x)]
Rep(x) == [i \in 1..Len(x) |-> Top(x)]
XorB(x, y) == [i \in 1..Len(x) |-> X(x[i], y[i])]
Abs(x) == XorB(Add(x, Rep(x)), Rep(x))
Div(x, y) == CondNeg(X(Top(x), IF Variant = "divsign" THEN 0 ELSE Top(y)), DivU(Abs(x), Abs(y))[1])
Mod(x, y) == CondNeg(Top(x), DivU(Abs(x), Abs(y))[2])
Geq(x, y) == 1 - Top(Sub(Append(x, Top(x)), IF Variant = "noextend" THEN Append(y, 0) ELSE Append(y, Top(y))))
(* bit counting tree *)
RECURSIVE Tree(_)
Pairs(v) == [i \in 1..(Len(v) \div 2) |-> Add(v[2*i-1], v[2*i])] \o (IF Len(v) % 2 = 1 THEN <<v[Len(v)]>> ELSE <<>>)
Tree(v) == IF Len(v) = 1 THEN v[1] ELSE Tree([i \in 1..Len(Pairs(v)) |-> Append(Pairs(v)[i], 0)])
PopCount(x) == Tree([i \in 1..Len(x) |-> <<x[i], 0>>])
RECURSIVE Smear(_, _)
Smear(x, i) == IF i < 1 THEN x ELSE Smear([x EXCEPT ![i] = Or(x[i], x[i+1])], i - 1)
Clz(x) == LET s == Smear(x, Len(x) - 1) IN PopCount([i \in 1..Len(x) |-> 1 - s[i]])
(* secret shift: one conditional shift per amount bit *)
Shl(x, k) == [i \in 1..Len(x) |-> IF i > k THEN x[i-k] ELSE 0]
RECURSIVE ShlBy(_, _, _, _)
ShlBy(x, y, i, n) == IF i > n THEN x ELSE ShlBy(Ite(y[i], Shl(x, 2^(i-1)), x), y, i + 1, n)
Lg(n) == CHOOSE k \in 0..10 : 2^k >= n /\ (k = 0 \/ 2^(k-1) < n)
Low == LET n == IF Lg(w) < w - 1 THEN Lg(w) ELSE w - 1 IN <<n, b % 2^n>>
A == Bits(a, w)
B == Bits(b, w)
Is(op, v) == Val(v) = S!SmallOp(op, a, b, w)
AddOk == Is("add", Add(A, B))
SubOk == Is("sub", Sub(A, B)) /\ Is("neg", Sub(Bits(0, w), A))
MulOk == Is("mul", Mul(A, B))
AbsOk == Is("abs", Abs(A))
DivOk == Is("div", Div(A, B)) /\ Is("mod", Mod(A, B))
DivDef == b # 0 => /\ S!U(S!SmallDiv(a, b, w) * b + S!SmallMod(a, b, w), w) = a
                   /\ S!AbsI(S!Sgn(S!SmallMod(a, b, w), w)) < S!AbsI(S!Sgn(b, w))
CmpOk == Geq(A, B) = S!SmallOp("geq", a, b, w)
CountOk == Is("popc", PopCount(A)) /\ Is("clz", Clz(A))
ShiftOk == Val(ShlBy(A, B, 1, Low[1])) = (a * 2^(Low[2])) % 2^w
=============================================================================
