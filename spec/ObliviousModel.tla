--------------------------- MODULE ObliviousModel ---------------------------
(* Two executions of one program side by side, on different secret inputs.    *)
(* A wire is public (its value is part of the program) or secret. A backend   *)
(* may drop a gate whose operand is a public constant; what it emits (gate    *)
(* kind, wire numbers) is the observation. Two-safety: whatever the program   *)
(* and the secret values, both executions emit the same observations and      *)
(* agree on which wires are public and on their values.                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, Variant
VARIABLES wa, wb, oa, ob, n
vars == <<wa, wb, oa, ob, n>>
Pub(v) == [pub |-> TRUE, v |-> v, id |-> 0]
Sec(v, i) == [pub |-> FALSE, v |-> v, id |-> i]
Init == \E s \in [1..4 -> {0, 1}] :
   /\ wa = <<Pub(0), Pub(1), Sec(s[1], 1), Sec(s[2], 2)>> /\ wb = <<Pub(0), Pub(1), Sec(s[3], 1), Sec(s[4], 2)>>
   /\ oa = <<>> /\ ob = <<>> /\ n = 0
Known(x) == x.pub \/ (Variant = "valuefold" /\ x.v = 0)
Fresh(o) == 3 + Len(o)
(* a gate returns <<wire, emitted observations>> *)
NotG(x, o) == IF x.pub THEN <<Pub(1 - x.v), o>> ELSE <<Sec(1 - x.v, Fresh(o)), Append(o, <<"not", x.id, 0>>)>>
AndG(x, y, o) == IF Known(x) THEN (IF x.v = 1 THEN <<y, o>> ELSE <<Pub(0), o>>) ELSE IF Known(y) THEN (IF y.v = 1 THEN <<x, o>> ELSE <<Pub(0), o>>)
                 ELSE <<Sec(x.v * y.v, Fresh(o)), Append(o, <<"and", x.id, y.id>>)>>
XorG(x, y, o) == IF x.pub THEN (IF x.v = 1 THEN NotG(y, o) ELSE <<y, o>>) ELSE IF y.pub THEN (IF y.v = 1 THEN NotG(x, o) ELSE <<x, o>>)
                 ELSE IF Variant = "equalfold" /\ x.v = y.v THEN <<Pub(0), o>>
                 ELSE <<Sec((x.v + y.v) % 2, Fresh(o)), Append(o, <<"xor", x.id, y.id>>)>>
G(k, x, y, o) == CASE k = "and" -> AndG(x, y, o) [] k = "xor" -> XorG(x, y, o) [] k = "not" -> NotG(x, o)
Step == /\ n < MaxLen /\ n' = n + 1
        /\ \E k \in {"and", "xor", "not"}, i \in 1..Len(wa), j \in 1..Len(wa) :
             /\ LET r == G(k, wa[i], wa[j], oa) IN wa' = Append(wa, r[1]) /\ oa' = r[2]
             /\ LET r == G(k, wb[i], wb[j], ob) IN wb' = Append(wb, r[1]) /\ ob' = r[2]
Next == Step
SameObs == oa = ob
SamePublic == \A i \in 1..Len(wa) : wa[i].pub = wb[i].pub /\ wa[i].id = wb[i].id /\ (wa[i].pub => wa[i].v = wb[i].v)
=============================================================================
