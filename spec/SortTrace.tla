------------------------------ MODULE SortTrace -----------------------------
(* Observed sorts: keys (signed, as biased limbs, most significant first) in  *)
(* the requested order inside [lo, lo+n), pairs permuted, the rest untouched. *)
EXTENDS TraceBase, Strict, FiniteSets
VARIABLE l
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Count(s, lo, hi, x) == Cardinality({i \in lo..hi : s[i] = x})
Leq(a, b) == a = b \/ (\E k \in 1..Len(a) : a[k] < b[k] /\ (\A j \in 1..(k-1) : a[j] = b[j]))
IntLeq(a, b) == a <= b
Pairs(k, p) == [i \in 1..Len(k) |-> IF Len(p) = 0 THEN <<k[i]>> ELSE <<k[i], p[i]>>]
Ordered(le(_, _), k, lo, hi, up) == \A i \in lo..(hi - 1) : IF up THEN le(k[i], k[i+1]) ELSE le(k[i+1], k[i])
Perm(a, b, lo, hi) == \A i \in lo..hi : Count(a, lo, hi, a[i]) = Count(b, lo, hi, a[i])
Good(le(_, _), k, p, ok, op, lo, hi, up) ==
   /\ Len(ok) = Len(k) /\ Len(op) = Len(p)
   /\ Ordered(le, ok, lo, hi, up)
   /\ (\E a \in {Pairs(k, p)}, b \in {Pairs(ok, op)} :
         /\ Perm(a, b, lo, hi)
         /\ \A i \in 1..Len(k) : (i < lo \/ i > hi) => a[i] = b[i])
Sort == Is("sort") /\ ev.ok /\ Good(IntLeq, ev.k, ev.p, ev.rk, ev.rp, ev.lo + 1, ev.lo + ev.n, ev.up)
SortW == Is("sortw") /\ ev.ok /\ Good(Leq, ev.k, ev.p, ev.rk, ev.rp, ev.lo + 1, ev.lo + ev.n, ev.up)
(* every 0-1 array of length n: inputs and outputs as bit masks, position i is bit i *)
Bt(x, i) == (x \div 2^i) % 2
Ones(x, n) == Cardinality({i \in 0..(n-1) : Bt(x, i) = 1})
Mask01(x, n, up) == LET c == Ones(x, n) IN IF up THEN (2^c - 1) * 2^(n - c) ELSE 2^c - 1
Sort01 == Is("sort01") /\ ev.ok /\ (\A q \in 1..Len(ev.xs) : ev.rs[q] = Mask01(ev.xs[q], ev.n, ev.up))
Next == Sort \/ SortW \/ Sort01
=============================================================================
