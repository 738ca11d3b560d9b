-------------------------------- MODULE Ieee --------------------------------
(* IEEE-754 binary32 on exact arithmetic. An encoding is a pair <<hi, lo>> of *)
(* 16-bit halves. A finite value is sign, significand M (a natural number of  *)
(* any size) and exponent e: M * 2^e; sticky says that the true magnitude is  *)
(* strictly between M * 2^e and (M+1) * 2^e.                                  *)
EXTENDS Integers, Sequences, TLC, Strict
N == INSTANCE BigNat WITH B <- 4096
Sign(u) == u[1] \div 32768
Ex(u) == (u[1] \div 128) % 256
Fr(u) == (u[1] % 128) * 65536 + u[2]
IsNaN(u) == Ex(u) = 255 /\ Fr(u) # 0
IsInf(u) == Ex(u) = 255 /\ Fr(u) = 0
IsZero(u) == Ex(u) = 0 /\ Fr(u) = 0
IsSub(u) == Ex(u) = 0 /\ Fr(u) # 0
Enc(s, ex, fr) == <<s * 32768 + ex * 128 + (fr \div 65536), fr % 65536>>
Zero(s) == Enc(s, 0, 0)
Inf(s) == Enc(s, 255, 0)
Flush(u) == IF IsSub(u) THEN Zero(Sign(u)) ELSE u
Sig(u) == IF Ex(u) = 0 THEN Fr(u) ELSE Fr(u) + 8388608
Exp2(u) == IF Ex(u) = 0 THEN -149 ELSE Ex(u) - 150
RECURSIVE BLen(_)
BLen(x) == IF x = 0 THEN 0 ELSE 1 + BLen(x \div 2)
BitLen(X) == IF X = <<>> THEN 0 ELSE 12 * (Len(X) - 1) + BLen(X[Len(X)])
Shl(X, k) == IF X = <<>> THEN <<>> ELSE N!Mul(X, N!Pow2(k))
(* floor and remainder of division by 2^k *)
HiV(X, k) == LET q == k \div 12 r == k % 12 IN
   N!Norm([i \in 1..N!MaxI(0, Len(X) - q) |-> (N!LimbAt(X, i + q) \div 2^r) + (N!LimbAt(X, i + q + 1) % 2^r) * 2^(12 - r)])
Hi(X, k) == S2(HiV, X, k)
ToInt(X) == N!LimbAt(X, 1) + 4096 * N!LimbAt(X, 2) + 16777216 * N!LimbAt(X, 3)
MaxI(a, b) == IF a > b THEN a ELSE b
(* nearest-even rounding of the exact magnitude to precision 24, exponent >= -149 *)
Pack(s, q, m) == IF m >= 16777216 THEN (IF q + 151 >= 255 THEN Inf(s) ELSE Enc(s, q + 151, (m \div 2) % 8388608))
                 ELSE IF m < 8388608 THEN Enc(s, 0, m)
                 ELSE IF q + 150 >= 255 THEN Inf(s) ELSE Enc(s, q + 150, m % 8388608)
RoundAt(s, M, e, sticky, q) ==
   IF q <= e THEN Pack(s, q, ToInt(Shl(M, e - q)))
   ELSE LET k == q - e
            h == ToInt(Hi(M, k))
            rem == N!ModPow2(M, k)
            c == N!Cmp(rem, N!Pow2(k - 1))
            up == c > 0 \/ (c = 0 /\ (sticky \/ h % 2 = 1))
        IN Pack(s, q, IF up THEN h + 1 ELSE h)
Round(s, M, e, sticky) == IF M = <<>> THEN Zero(s) ELSE RoundAt(s, M, e, sticky, MaxI(e + BitLen(M) - 24, -149))
(* magnitude below the smallest normal number *)
Tiny(M, e) == BitLen(M) + e <= -126
FtzRound(s, M, e, sticky) == IF Tiny(M, e) THEN Zero(s) ELSE Round(s, M, e, sticky)
Nan == <<-1, -1>>
X2(a, b) == (a + b) % 2
Neg(u) == <<(u[1] + 32768) % 65536, u[2]>>
(* exact sum of two finite values, smaller exponent as common scale; difference above 60 collapses to sticky *)
AddFin(a, b) ==
   LET ea == Exp2(a) eb == Exp2(b) IN
   IF Sig(a) = 0 /\ Sig(b) = 0 THEN (IF Sign(a) = Sign(b) THEN Zero(Sign(a)) ELSE Zero(0))
   ELSE IF Sig(a) = 0 THEN b ELSE IF Sig(b) = 0 THEN a
   ELSE LET e == IF ea < eb THEN ea ELSE eb
            A == Shl(N!OfInt(Sig(a)), ea - e)
            C == Shl(N!OfInt(Sig(b)), eb - e)
        IN IF Sign(a) = Sign(b) THEN S2(LAMBDA M, x : FtzRound(Sign(a), M, x, FALSE), N!Add(A, C), e)
           ELSE LET c == N!Cmp(A, C) IN
                IF c = 0 THEN Zero(0)
                ELSE S2(LAMBDA M, x : FtzRound(IF c > 0 THEN Sign(a) ELSE Sign(b), M, x, FALSE), IF c > 0 THEN N!Sub(A, C) ELSE N!Sub(C, A), e)
Add(a, b) == IF IsInf(a) THEN (IF IsInf(b) /\ Sign(a) # Sign(b) THEN Nan ELSE a) ELSE IF IsInf(b) THEN b ELSE AddFin(a, b)
Mul(a, b) == LET s == X2(Sign(a), Sign(b)) IN
   IF IsInf(a) \/ IsInf(b) THEN (IF IsZero(a) \/ IsZero(b) THEN Nan ELSE Inf(s))
   ELSE IF Sig(a) = 0 \/ Sig(b) = 0 THEN Zero(s)
   ELSE S2(LAMBDA M, e : FtzRound(s, M, e, FALSE), N!Mul(N!OfInt(Sig(a)), N!OfInt(Sig(b))), Exp2(a) + Exp2(b))
DivFin(s, a, b) == S1(LAMBDA qr : FtzRound(s, qr[1], Exp2(a) - Exp2(b) - 36, qr[2] # <<>>), N!DivMod(Shl(N!OfInt(Sig(a)), 36), N!OfInt(Sig(b))))
Div(a, b) == LET s == X2(Sign(a), Sign(b)) IN
   IF IsInf(a) THEN (IF IsInf(b) THEN Nan ELSE Inf(s)) ELSE IF IsInf(b) THEN Zero(s)
   ELSE IF Sig(b) = 0 THEN (IF Sig(a) = 0 THEN Nan ELSE Inf(s)) ELSE IF Sig(a) = 0 THEN Zero(s)
   ELSE DivFin(s, a, b)
(* the square keeps subnormals: full IEEE *)
Sqr(a) == IF IsInf(a) THEN Inf(0) ELSE IF Sig(a) = 0 THEN Zero(0)
   ELSE S2(LAMBDA M, e : Round(0, M, e, FALSE), N!Mul(N!OfInt(Sig(a)), N!OfInt(Sig(a))), 2 * Exp2(a))
(* r is the correctly rounded root of a > 0: (2m-1)^2 < 4a/ulp^2 < (2m+1)^2 *)
SqrtIs(a, r) == IF IsInf(a) THEN r = a ELSE IF Sig(a) = 0 THEN r = a
   ELSE /\ Sign(r) = 0 /\ Ex(r) > 0 /\ Ex(r) < 255
        /\ LET m == Sig(r)
               d == Exp2(a) - 2 * Exp2(r) + 2
               L == N!Mul(N!OfInt(2 * m - 1), N!OfInt(2 * m - 1))
               H == N!Mul(N!OfInt(2 * m + 1), N!OfInt(2 * m + 1))
               A == Shl(N!OfInt(Sig(a)), IF d > 0 THEN d ELSE 0)
               k == IF d > 0 THEN 0 ELSE -d
           IN N!Leq(Shl(L, k), A) /\ N!Leq(A, Shl(H, k))
(* order: key monotone in the value, both zeros equal *)
Key(u) == IF Sign(u) = 1 THEN <<-(u[1] % 32768), -u[2]>> ELSE u
Less(a, b) == LET p == Key(a) q == Key(b) IN p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Eq(a, b) == Key(a) = Key(b)
=============================================================================
