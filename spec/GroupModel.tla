----------------------------- MODULE GroupModel -----------------------------
(* The scalar abstraction is faithful: on a real curve over a small prime    *)
(* field (y^2 = x^3 + A x + Bc mod P, prime group order Ord), chord-and-     *)
(* tangent addition of the points k*G corresponds to addition of scalars,    *)
(* and the division-free addition law used on traces accepts exactly the     *)
(* sum.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, A, Bc, Ord
VARIABLES a, b
Inv(x) == CHOOSE y \in 1..(P-1) : (x*y) % P = 1
Mp(x) == x % P
Pts == {<<>>} \cup {q \in {<<x,y>> : x \in 0..(P-1), y \in 0..(P-1)} : (q[2]*q[2]) % P = (q[1]*q[1]*q[1] + A*q[1] + Bc) % P}
Sum(p,q) ==
  IF p = <<>> THEN q ELSE IF q = <<>> THEN p
  ELSE IF p[1] = q[1] /\ (p[2] + q[2]) % P = 0 THEN <<>>
  ELSE LET lam == IF p = q THEN ((3*p[1]*p[1] + A) * Inv(Mp(2*p[2]))) % P ELSE ((q[2]-p[2]) * Inv(Mp(q[1]-p[1]))) % P
           x == Mp(lam*lam - p[1] - q[1])
       IN <<x, Mp(lam*(p[1]-x) - p[2])>>
G == CHOOSE g \in Pts : g # <<>>
RECURSIVE Times(_)
Times(k) == IF k = 0 THEN <<>> ELSE Sum(Times(k-1), G)
Tab == [k \in 0..(Ord-1) |-> Times(k)]
Law(p,q,r) == LET dx == IF p = q THEN 2*p[2] ELSE q[1]-p[1]
                  dy == IF p = q THEN 3*p[1]*p[1] + A ELSE q[2]-p[2]
              IN /\ Mp(r[1]*Mp(dx*dx)) = Mp(dy*dy - (p[1]+q[1])*Mp(dx*dx))
                 /\ Mp(r[2]*dx) = Mp(dy*(p[1]-r[1]) - p[2]*dx)
ASSUME Cardinality(Pts) = Ord /\ Sum(Tab[Ord-1], G) = <<>> /\ {Tab[k] : k \in 0..(Ord-1)} = Pts
Init == a \in 0..(Ord-1) /\ b \in 0..(Ord-1)
Next == UNCHANGED <<a,b>>
Homomorphism == Sum(Tab[a], Tab[b]) = Tab[(a+b) % Ord]
LawExact == (a # 0 /\ b # 0 /\ (a+b) % Ord # 0) =>
    \A r \in Pts \ {<<>>} : Law(Tab[a], Tab[b], r) <=> r = Tab[(a+b) % Ord]
=============================================================================
