----------------------------- MODULE FloatTrace -----------------------------
(* Observed float operations against Ieee. Encodings are consecutive 16-bit   *)
(* halves: operands and result of each case.                                  *)
EXTENDS TraceBase, Bitwise, Strict
VARIABLE l
F == INSTANCE Ieee
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Q(k) == <<ev.q[k], ev.q[k+1]>>
Undef(a, b, r) == r = F!Nan
BinOk(op, a0, b0, r) == LET a == F!Flush(a0) b == F!Flush(b0)
                            w == CASE op = "add" -> F!Add(a, b) [] op = "sub" -> F!Add(a, F!Neg(b)) [] op = "mul" -> F!Mul(a, b) [] op = "div" -> F!Div(a, b)
                        IN F!IsNaN(a) \/ F!IsNaN(b) \/ S2(LAMBDA x, y : x = F!Nan \/ x = y, w, r)
Bin == Is("bin") /\ ev.kept /\ (\A k \in 0..((Len(ev.q) \div 6) - 1) : BinOk(ev.op, Q(6*k+1), Q(6*k+3), Q(6*k+5)))
UnOk(op, a, r) == F!IsNaN(a) \/ (op = "sqrt" /\ F!Sign(a) = 1 /\ ~F!IsZero(a)) \/ (IF op = "sqr" THEN r = F!Sqr(a) ELSE F!SqrtIs(a, r))
Un == Is("un") /\ ev.kept /\ (\A k \in 0..((Len(ev.q) \div 4) - 1) : UnOk(ev.op, Q(4*k+1), Q(4*k+3)))
(* comparisons: operands normal, zero or infinite *)
B2(p) == IF p THEN 1 ELSE 0
CmpOk(op, a, b, r) == CASE op = "eq" -> r = B2(F!Eq(a, b)) [] op = "le" -> r = B2(~F!Less(b, a)) [] op = "lt" -> r = B2(F!Less(a, b))
Cmp == Is("cmp") /\ ev.kept /\ (\A k \in 0..((Len(ev.q) \div 5) - 1) : CmpOk(ev.op, Q(5*k+1), Q(5*k+3), ev.q[5*k+5]))
(* encodings: any 32 bits *)
RawOk(op, s, a, b, r) ==
  CASE op = "neg" -> r = F!Neg(a) [] op = "abs" -> r = <<a[1] % 32768, a[2]>>
    [] op = "id" -> r = a
    [] op \in {"xor", "xore"} -> r = <<a[1] ^^ b[1], a[2] ^^ b[2]>>
    [] op = "and" -> r = <<a[1] & b[1], a[2] & b[2]>>
    [] op = "sel" -> r = (IF s = 1 THEN b ELSE a)
    [] op = "if" -> r = (IF s = 1 THEN a ELSE b)
    [] op = "swap1" -> r = (IF s = 1 THEN b ELSE a)
    [] op = "swap2" -> r = (IF s = 1 THEN a ELSE b)
Raw == Is("raw") /\ ev.kept /\ (\A k \in 0..((Len(ev.q) \div 7) - 1) : RawOk(ev.op, ev.q[7*k+1], Q(7*k+2), Q(7*k+4), Q(7*k+6)))
(* widening to double: four halves, most significant first *)
RECURSIVE Lead(_)
Lead(f) == IF f >= 4194304 THEN 0 ELSE 1 + Lead(2 * f)
Wide(a) == IF F!IsInf(a) THEN <<F!Sign(a) * 32768 + 32752, 0, 0, 0>>
  ELSE IF F!IsZero(a) THEN <<F!Sign(a) * 32768, 0, 0, 0>>
  ELSE LET z == IF F!IsSub(a) THEN Lead(F!Fr(a)) ELSE 0
           fr == IF F!IsSub(a) THEN (F!Fr(a) * 2^(z + 1)) % 8388608 ELSE F!Fr(a)
           ex == IF F!IsSub(a) THEN 896 - z ELSE F!Ex(a) + 896
       IN <<F!Sign(a) * 32768 + ex * 16 + (fr \div 524288), (fr \div 8) % 65536, (fr % 8) * 8192, 0>>
Dbl == Is("dbl") /\ (\A k \in 0..((Len(ev.q) \div 6) - 1) : F!IsNaN(Q(6*k+1)) \/ Wide(Q(6*k+1)) = <<ev.q[6*k+3], ev.q[6*k+4], ev.q[6*k+5], ev.q[6*k+6]>>)
(* decimal text with six digits after the point: digits as a number is value * 10^6 rounded to nearest *)
Dec(d) == Fold(LAMBDA acc, x : F!N!Add(F!N!Mul(acc, <<10>>), F!N!OfInt(x)), <<>>, d)
Million == F!N!OfInt(1000000)
Near(D, a) == LET X == F!N!Mul(F!N!OfInt(F!Sig(a)), Million) e == F!Exp2(a)
                  A == F!Shl(X, IF e > 0 THEN e ELSE 0)
                  k == IF e > 0 THEN 0 ELSE -e
                  E == F!Shl(D, k)
              IN IF F!N!Leq(A, E) THEN F!N!Leq(F!Shl(F!N!Sub(E, A), 1), F!N!Pow2(k)) ELSE F!N!Leq(F!Shl(F!N!Sub(A, E), 1), F!N!Pow2(k))
Txt == Is("txt") /\ (\E a \in {<<ev.q[1], ev.q[2]>>} :
   \/ F!IsNaN(a)
   \/ F!IsInf(a) /\ ev.form = "inf" /\ ev.neg = F!Sign(a)
   \/ F!Ex(a) < 255 /\ ev.form = "num" /\ ev.neg = F!Sign(a) /\ S2(Near, Dec(ev.d), a))
Index == Is("index") /\ (\E k \in {IF ev.i > 31 THEN 31 ELSE ev.i} : ev.got = (IF k < 16 THEN (ev.q[2] \div 2^k) % 2 ELSE (ev.q[1] \div 2^(k-16)) % 2))
Next == Bin \/ Un \/ Cmp \/ Raw \/ Dbl \/ Txt \/ Index
=============================================================================
