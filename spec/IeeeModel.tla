------------------------------ MODULE IeeeModel -----------------------------
(* The rounding of Ieee against the definition of nearest-even: no neighbour  *)
(* of the result is closer to the exact value, and at equal distance the      *)
(* result is even. Plus algebraic laws on a set of boundary encodings.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Variant, Step
VARIABLES ph, M, e, a, b
F == INSTANCE Ieee
N == INSTANCE BigNat WITH B <- 4096
Ks == {-3, -2, -1, 31, 33, 96, 127, 128} \cup {k \in 0..32 : k % Step = 0 \/ k < 8}
Es == {-190, -178, -177, -176, -175, -174, -151, -150, -149, -148, -100, 0, 97, 98, 99, 100, 101, 102, 103, 104, 105}
Bases == {16777216, 33554432, 67108864, 134217728, 1073741824, 8388608}
Encs == {<<h, lo>> : h \in {0, 1, 127, 128, 129, 16256, 16257, 16383, 32639, 32512, 32640, 32768, 32896, 49024, 65407, 65408}, lo \in {0, 1, 65535}}
Good == {u \in Encs : ~F!IsNaN(u)}
Init == \/ ph = 0 /\ M \in {x + k : x \in Bases, k \in Ks} /\ e \in Es /\ a = 0 /\ b = 0
        \/ ph = 1 /\ M = 0 /\ e = 0 /\ a \in Good /\ b \in Good
Next == FALSE /\ UNCHANGED <<ph, M, e, a, b>>
R == IF Variant = "halfup" THEN LET q == F!MaxI(e + F!BitLen(N!OfInt(M)) - 24, -149) k == q - e IN
        IF k <= 0 THEN F!Round(0, N!OfInt(M), e, FALSE) ELSE F!Pack(0, q, F!ToInt(F!Hi(N!Add(N!OfInt(M), N!Pow2(k-1)), k)))
     ELSE F!Round(0, N!OfInt(M), e, FALSE)
(* the value of a finite encoding and of M*2^e, both scaled by 2^200 *)
Sc(s, x) == F!Shl(N!OfInt(s), x + 200)
ValOf(u) == Sc(F!Sig(u), F!Exp2(u))
Up(u) == IF u[2] = 65535 THEN <<u[1] + 1, 0>> ELSE <<u[1], u[2] + 1>>
Dn(u) == IF u[2] = 0 THEN <<u[1] - 1, 65535>> ELSE <<u[1], u[2] - 1>>
Dist(p, q) == IF N!Leq(p, q) THEN N!Sub(q, p) ELSE N!Sub(p, q)
Closer(u, w, x) == LET c == N!Cmp(Dist(ValOf(u), x), Dist(ValOf(w), x)) IN c < 0 \/ (c = 0 /\ u[2] % 2 = 0)
Nearest == ph = 0 => LET u == R x == Sc(M, e) IN
   IF F!IsInf(u) THEN N!Leq(Sc(33554431, 103), x)
   ELSE /\ ~F!IsNaN(u)
        /\ (F!IsInf(Up(u)) \/ Closer(u, Up(u), x))
        /\ (u = <<0, 0>> \/ Closer(u, Dn(u), x))
Laws == ph = 1 => /\ F!Add(a, b) = F!Add(b, a) /\ F!Mul(a, b) = F!Mul(b, a)
                  /\ (F!Less(a, b) => ~F!Less(b, a)) /\ (F!Less(a, b) \/ F!Less(b, a) \/ F!Eq(a, b))
                  /\ (F!Eq(a, b) => F!Add(F!Flush(a), F!Neg(F!Flush(b))) \in {F!Nan, <<0, 0>>, <<32768, 0>>})
                  /\ (~F!IsInf(a) => F!Sqr(F!Flush(a)) \in {F!Mul(F!Flush(a), F!Flush(a))} \/ F!IsZero(F!Mul(F!Flush(a), F!Flush(a))))
                  /\ F!Mul(F!Flush(a), <<16256, 0>>) = F!Flush(a) /\ F!Div(F!Flush(a), <<16256, 0>>) = F!Flush(a)
=============================================================================
