--------------------------- MODULE MITCCRHModel ---------------------------
(* Two objects driven by the same call shapes (generator and evaluator, with *)
(* different numbers of inputs per key): they always use the same keys, and  *)
(* no key is used by two calls until the stream is repositioned.             *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Starts, MaxG, BB
VARIABLES s1,g1,b1,u1,B1, s2,g2,b2,u2,B2, spent, same, fresh
K0(s,g) == <<s,g>>
A0(g,n) == g+n
P == INSTANCE MITCCRH WITH Key <- K0, Adv <- A0, start <- s1, gid <- g1, batch <- b1, used <- u1, B <- B1
Q == INSTANCE MITCCRH WITH Key <- K0, Adv <- A0, start <- s2, gid <- g2, batch <- b2, used <- u2, B <- B2
v1 == <<s1,g1,b1,u1,B1>>
v2 == <<s2,g2,b2,u2,B2>>
Init == /\ s1 \in Starts /\ s2 = s1 /\ g1 = 0 /\ g2 = 0 /\ b1 = <<>> /\ b2 = <<>>
        /\ u1 = BB /\ u2 = BB /\ B1 = BB /\ B2 = BB /\ spent = {} /\ same = TRUE /\ fresh = TRUE
Shapes == {k \in 1..BB : BB % k = 0}
Call == \E k \in Shapes : g1 <= MaxG /\ P!Hash(k) /\ Q!Hash(k)
          /\ same' = (P!KeysFor(k) = Q!KeysFor(k))
          /\ fresh' = (\A i \in 1..k : P!KeysFor(k)[i] \notin spent)
          /\ spent' = spent \cup {P!KeysFor(k)[j] : j \in 1..k}
Repos == \E g \in {0, 3} : spent # {} /\ P!RenewNow(g) /\ Q!RenewNow(g) /\ spent' = {} /\ UNCHANGED <<same, fresh>>
Sets == \E s \in Starts : s # s1 /\ P!SetS(s) /\ Q!SetS(s) /\ UNCHANGED <<spent, same, fresh>>
Next == Call \/ Repos \/ Sets
Lockstep == same
NoReuse == fresh
InBatch == u1 <= BB
=============================================================================
