------------------------------ MODULE FloatFun ------------------------------
(* sin(pi x), cos(pi x), 2^x, e^x, ln x and log2 x to more than 40 correct    *)
(* bits, in fixed point with 48 fraction bits (four limbs), and what a secret  *)
(* float may return for them. Arguments are reduced exactly (multiples of 2^e  *)
(* are not rounded before reduction), then a power series is summed.           *)
EXTENDS Integers, Sequences, TLC, Strict
F == INSTANCE Ieee
N == INSTANCE BigNat WITH B <- 4096
One == <<0,0,0,0,1>>
Pi == <<1443,2184,3946,579,3>>
Ln2 == <<463,3965,535,2839>>
Log2E == <<2095,1323,1142,1813,1>>
Log2E60 == <<3607,2095,1323,1142,1813,1>>
Drop4(X) == IF Len(X) <= 4 THEN <<>> ELSE SubSeq(X, 5, Len(X))
FM(a, b) == S1(Drop4, N!Mul(a, b))
(* division by a small number, limb by limb from the top *)
DivStep(d, acc, x) == LET t == acc[2] * 4096 + x IN <<Append(acc[1], t \div d), t % d>>
DivS(X, d) == S1(LAMBDA r : N!Norm(N!RevSeq(r[1])), Fold(LAMBDA acc, x : DivStep(d, acc, x), <<<<>>, 0>>, N!RevSeq(X)))
(* floor(M * 2^e) with 48 fraction bits *)
Fix(M, e) == IF M = <<>> \/ e + 48 < -200 THEN <<>> ELSE IF e + 48 >= 0 THEN F!Shl(M, e + 48) ELSE F!Hi(M, -(e + 48))
(* series: acc = <<power term, sum of even terms, sum of odd terms>> *)
Step(w, d, k, acc) == S1(LAMBDA t : IF k % 2 = 0 THEN <<t, N!Add(acc[2], t), acc[3]>> ELSE <<t, acc[2], N!Add(acc[3], t)>>, DivS(FM(acc[1], w), d))
SinS(w, w2) == S1(LAMBDA r : N!Sub(r[2], r[3]), Fold(LAMBDA acc, k : Step(w2, 2*k*(2*k+1), k, acc), <<w, w, <<>>>>, [k \in 1..10 |-> k]))
CosS(w2) == S1(LAMBDA r : IF N!Leq(r[3], r[2]) THEN N!Sub(r[2], r[3]) ELSE <<>>, Fold(LAMBDA acc, k : Step(w2, (2*k-1)*2*k, k, acc), <<One, One, <<>>>>, [k \in 1..10 |-> k]))
S(t) == S1(LAMBDA w : S2(SinS, w, FM(w, w)), FM(Pi, t))
C(t) == S1(LAMBDA w : S1(CosS, FM(w, w)), FM(Pi, t))
ExpS(y) == S1(LAMBDA r : N!Add(r[2], r[3]), Fold(LAMBDA acc, k : Step(y, k, k, acc), <<One, One, <<>>>>, [k \in 1..16 |-> k]))
(* 2^f for a fraction f *)
Pow2F(f) == S1(ExpS, FM(Ln2, f))
(* natural logarithm of m / 2^23 in [1, 2): twice the area tangent of (m - 2^23) / (m + 2^23) *)
AtStep(s2, k, acc) == S1(LAMBDA p : <<p, N!Add(acc[2], DivS(p, 2*k+1))>>, FM(acc[1], s2))
AtS(s, s2) == S1(LAMBDA r : N!Add(r[2], r[2]), Fold(LAMBDA acc, k : AtStep(s2, k, acc), <<s, s>>, [k \in 1..16 |-> k]))
LnM(m) == S1(LAMBDA qr : S2(AtS, qr[1], FM(qr[1], qr[1])), N!DivMod(F!Shl(N!OfInt(m - 8388608), 48), N!OfInt(m + 8388608)))
(* |a - b| <= t *)
Within(a, b, t) == IF N!Leq(a, b) THEN N!Leq(N!Sub(b, a), t) ELSE N!Leq(N!Sub(a, b), t)
(* a magnitude with a sign bit, moved into the naturals *)
Off(o, s, X) == IF s = 1 THEN N!Sub(o, X) ELSE N!Add(o, X)
(* ---- sine and cosine of pi x: absolute error at most 2^-21 ---- *)
Tol21 == N!Pow2(27)
Two == <<0,0,0,0,2>>
(* |x| modulo 2 *)
Mod2(x) == IF F!Exp2(x) >= 1 THEN <<>> ELSE N!ModPow2(Fix(N!OfInt(F!Sig(x)), F!Exp2(x)), 49)
Quad(r) == N!BitAt(r, 47) + 2 * N!BitAt(r, 48)
(* sign and magnitude *)
SinCos(op, q, t) == IF (op = "sin") = (q % 2 = 0) THEN S(t) ELSE C(t)
SgnQ(op, q) == IF op = "sin" THEN (IF q >= 2 THEN 1 ELSE 0) ELSE (IF q \in {1, 2} THEN 1 ELSE 0)
TrigAt(op, x, r, m) == Within(Off(Two, F!Sign(r), Fix(N!OfInt(F!Sig(r)), F!Exp2(r))),
                              Off(Two, IF op = "sin" THEN (SgnQ(op, Quad(m)) + F!Sign(x)) % 2 ELSE SgnQ(op, Quad(m)), SinCos(op, Quad(m), N!ModPow2(m, 47))), Tol21)
TrigOk(op, x, r) == IF F!Ex(x) = 255 THEN F!IsNaN(r) ELSE F!Ex(r) <= 127 /\ S1(LAMBDA m : TrigAt(op, x, r, m), Mod2(x))
(* ---- exponentials: relative error at most 2^-22 within the normal range ---- *)
IntOf(Y) == N!LimbAt(Y, 5) + 4096 * N!LimbAt(Y, 6)
(* the exact value is V * 2^(n-48) with 2^48 <= V < 2^49 *)
ExpJudge(r, V, n) ==
   /\ F!Sign(r) = 0 /\ ~F!IsNaN(r)
   /\ IF F!IsInf(r) THEN n >= 128 \/ (n = 127 /\ N!Leq(N!Sub(N!Pow2(49), N!Pow2(27)), V))
      ELSE IF F!IsZero(r) THEN n < -126 \/ (n = -126 /\ N!Leq(V, N!Add(N!Pow2(48), N!Pow2(26))))
      ELSE LET d == F!Exp2(r) - (n - 48) IN
           d >= 0 /\ d <= 60 /\ S1(LAMBDA A : N!Leq(F!Shl(IF N!Leq(A, V) THEN N!Sub(V, A) ELSE N!Sub(A, V), 22), V), F!Shl(N!OfInt(F!Sig(r)), d))
ExpAt(s, r, n, f) == IF s = 0 THEN ExpJudge(r, Pow2F(f), n)
                     ELSE IF f = <<>> THEN ExpJudge(r, One, -n) ELSE S2(LAMBDA g, k : ExpJudge(r, Pow2F(g), k), N!Sub(One, f), -n - 1)
Expo(op, x) == IF op = "exp2" THEN Fix(N!OfInt(F!Sig(x)), F!Exp2(x)) ELSE Fix(N!Mul(N!OfInt(F!Sig(x)), Log2E60), F!Exp2(x) - 60)
ExpOk(op, x, r) == IF F!IsNaN(x) THEN TRUE
   ELSE IF F!Ex(x) >= 135 THEN r = (IF F!Sign(x) = 1 THEN F!Zero(0) ELSE F!Inf(0))
   ELSE S1(LAMBDA Y : S2(LAMBDA n, f : ExpAt(F!Sign(x), r, n, f), IntOf(Y), N!ModPow2(Y, 48)), Expo(op, x))
(* ---- logarithms: error at most 2^-23 times the larger of 1 and the magnitude ---- *)
O256 == <<0,0,0,0,256>>
Mag(T) == IF N!Leq(T, O256) THEN N!Sub(O256, T) ELSE N!Sub(T, O256)
MaxN(a, b) == IF N!Leq(a, b) THEN b ELSE a
LogT(op, k, L) == LET u == IF op = "ln" THEN N!Mul(N!OfInt(IF k < 0 THEN -k ELSE k), Ln2) ELSE N!Mul(N!OfInt(IF k < 0 THEN -k ELSE k), One)
                  IN N!Add(Off(O256, IF k < 0 THEN 1 ELSE 0, u), IF op = "ln" THEN L ELSE FM(L, Log2E))
LogOk(op, x, r) == IF F!IsNaN(x) \/ F!Sign(x) = 1 THEN TRUE
   ELSE IF F!IsInf(x) THEN r = F!Inf(0)
   ELSE IF F!Ex(x) = 0 THEN r = F!Inf(1)
   ELSE F!Ex(r) <= 134 /\ S2(LAMBDA T, R : Within(R, T, F!Hi(MaxN(One, Mag(T)), 23)),
                             LogT(op, F!Exp2(x) + 23, LnM(F!Sig(x))), Off(O256, F!Sign(r), Fix(N!OfInt(F!Sig(r)), F!Exp2(r))))
Ok(op, x, r) == CASE op \in {"sin", "cos"} -> TrigOk(op, x, r) [] op \in {"exp2", "exp"} -> ExpOk(op, x, r) [] op \in {"ln", "log2"} -> LogOk(op, x, r)
=============================================================================
