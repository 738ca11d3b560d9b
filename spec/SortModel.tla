------------------------------ MODULE SortModel -----------------------------
(* The sorting network as a machine: a list of comparators is built from the  *)
(* length alone and applied one at a time to keys and payloads. A comparator  *)
(* <<i, j, d>> exchanges positions i and j when (key i > key j) = direction.  *)
(* Invariants: the pairs are a permutation of the input at every step, and    *)
(* the keys are in order at the end (0-1 inputs decide all inputs: the        *)
(* network is data independent).                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, V, Variant
VARIABLES n, key0, key, pay, acc, pc
vars == <<n, key0, key, pay, acc, pc>>
RECURSIVE P2(_, _)
P2(m, k) == IF k < m THEN P2(m, 2 * k) ELSE k \div 2
RECURSIVE Merge(_, _, _)
Merge(lo, m, d) == IF m <= 1 THEN <<>>
  ELSE LET h == IF Variant = "mergehalf" THEN m \div 2 ELSE P2(m, 1)
       IN [k \in 1..(m - h) |-> <<lo + k - 1, lo + k - 1 + h, d>>] \o Merge(lo, h, d) \o Merge(lo + h, m - h, d)
RECURSIVE Net(_, _, _)
Net(lo, m, d) == IF m <= 1 THEN <<>>
  ELSE LET h == m \div 2 IN Net(lo, h, IF Variant = "samedir" THEN d ELSE ~d) \o Net(lo + h, m - h, d) \o Merge(lo, m, d)
Nets == [m \in 1..MaxN |-> Net(1, m, TRUE)]
Init == /\ n \in 1..MaxN /\ key0 \in [1..n -> 0..V] /\ acc \in BOOLEAN
        /\ key = key0 /\ pay = [i \in 1..n |-> i] /\ pc = 1
Swp(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Step == /\ pc <= Len(Nets[n])
        /\ LET c == Nets[n][pc] IN LET i == c[1] j == c[2] d == (c[3] = acc) IN
           LET sw == ((key[i] > key[j]) = d) IN
             /\ key' = (IF sw THEN Swp(key, i, j) ELSE key)
             /\ pay' = (IF (IF Variant = "recompare" THEN ((key'[i] > key'[j]) = d) ELSE sw) THEN Swp(pay, i, j) ELSE pay)
        /\ pc' = pc + 1 /\ UNCHANGED <<n, key0, acc>>
Next == Step
Spec == Init /\ [][Next]_vars
Attached == \A i \in 1..n : key[i] = key0[pay[i]]
Permuted == {pay[i] : i \in 1..n} = 1..n
Sorted == pc > Len(Nets[n]) => \A i \in 1..(n - 1) : IF acc THEN key[i] <= key[i+1] ELSE key[i] >= key[i+1]
=============================================================================
