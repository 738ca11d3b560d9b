---------------------------- MODULE FloatFunModel ---------------------------
(* The reference functions themselves: known values and defining laws on a    *)
(* grid, so that the oracle is anchored independently of the code.            *)
EXTENDS Integers, Sequences, TLC, Strict
CONSTANTS Grid, Variant
VARIABLE i
T == INSTANCE FloatFun
N == INSTANCE BigNat WITH B <- 4096
Init == i = 0
Next == i < Grid /\ i' = i + 1
(* i / Grid of 1 and of 1/2 in fixed point *)
Full(k) == T!DivS(N!Mul(N!OfInt(k), T!One), Grid)
Half(k) == T!DivS(N!Mul(N!OfInt(k), T!One), 2 * Grid)
Eps == N!Pow2(8)
Near(a, b) == T!Within(a, b, Eps)
Sin(t) == T!S(t)
Cos(t) == IF Variant = "phase" THEN T!S(t) ELSE T!C(t)
Exp(f) == IF Variant = "base" THEN T!ExpS(f) ELSE T!Pow2F(f)
Pythagoras == Near(N!Add(T!FM(Sin(Half(i)), Sin(Half(i))), T!FM(Cos(Half(i)), Cos(Half(i)))), T!One)
Complement == Near(Sin(Half(i)), Cos(Half(Grid - i)))
Doubling == 2*i > Grid \/ Near(Sin(Half(2*i)), N!Mul(<<2>>, T!FM(Sin(Half(i)), Cos(Half(i)))))
Product == Near(T!FM(Exp(Full(i)), Exp(Full(Grid - i))), N!Add(T!One, T!One))
Inverse == i = Grid \/ (\A m \in {8388608 + i * (8388608 \div Grid)} : T!Within(T!ExpS(T!LnM(m)), T!Fix(N!OfInt(m), -23), Eps))
(* sin(pi/6) = 1/2, e^1, ln 2 by the series *)
Known == /\ Near(T!S(T!DivS(T!One, 6)), T!DivS(T!One, 2)) /\ Near(T!C(<<>>), T!One) /\ Near(T!S(<<>>), <<>>)
         /\ Near(T!ExpS(T!One), <<2797,1576,337,2942,2>>)
         /\ Near(T!FM(T!Ln2, T!Log2E), T!One)
Laws == Pythagoras /\ Complement /\ Doubling /\ Product /\ Inverse /\ Known
=============================================================================
