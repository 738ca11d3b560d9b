----------------------------- MODULE PlainTrace -----------------------------
(* Programs over secret bits in the clear backend: every wire's truth table,  *)
(* which wires are reported public, and the AND count.                        *)
EXTENDS TraceBase, Circ
VARIABLES l, w, fed, ands
ev == Trace[l]
Init == l = 1 /\ w = <<>> /\ fed = 0 /\ ands = 0
Is(S) == l <= N /\ ev.e \in S /\ l' = l + 1
T(i) == IF i + 1 <= Len(w) THEN w[i+1].t ELSE 0
P(i) == w[i+1].p
(* only genuine constants are public, and publicness does not depend on secrets *)
PubOk == Len(ev.p) = Len(ev.t) /\ \A i \in 1..Len(ev.t) : ev.p[i] \in {0, Full} /\ (ev.p[i] = Full => ev.t[i] \in {0, Full})
Grow == w' = w \o [i \in 1..Len(ev.t) |-> [t |-> ev.t[i], p |-> ev.p[i]]]
Begin == Is({"begin"}) /\ w' = <<>> /\ fed' = 0 /\ ands' = 0
Feed == /\ Is({"feed"}) /\ ev.t = SubSeq(Canon, fed + 1, fed + ev.a) /\ PubOk /\ ev.n = ands /\ Grow
        /\ fed' = fed + ev.a /\ UNCHANGED ands
Pub == /\ Is({"pub", "pubfeed"}) /\ ev.t = <<Const16(ev.a)>> /\ ev.p = <<Full>> /\ ev.n = ands /\ Grow /\ UNCHANGED <<fed, ands>>
(* one AND operation; counted exactly when both operands are secret *)
AndOp == /\ Is({"and", "band"}) /\ ev.t = <<T(ev.a) & T(ev.b)>> /\ PubOk /\ Grow
       /\ ands' = (IF P(ev.a) = 0 /\ P(ev.b) = 0 THEN ands + 1 ELSE ands) /\ ev.n = ands' /\ UNCHANGED fed
Linear == /\ Is({"xor", "bxor", "not", "bnot", "beq", "bne", "bxe"})
          /\ ev.t = OpVals(ev.e, ev.a, ev.b, ev.c, T(ev.a), T(ev.b), T(ev.c)) /\ PubOk /\ Grow
          /\ ev.n = ands /\ UNCHANGED <<fed, ands>>
(* built from several gates: the count is whatever its AND operations add *)
Compound == /\ Is({"bor", "sel", "if", "swap"})
            /\ ev.t = OpVals(ev.e, ev.a, ev.b, ev.c, T(ev.a), T(ev.b), T(ev.c)) /\ PubOk /\ Grow
            /\ ev.n >= ands /\ ands' = ev.n /\ UNCHANGED fed
Reveal == Is({"reveal"}) /\ ev.rev = T(ev.a) /\ ev.n = ands /\ UNCHANGED <<w, fed, ands>>
RevealN == Is({"revealn"}) /\ ev.t = [i \in 1..ev.b |-> T(ev.a + i - 1)] /\ ev.n = ands /\ UNCHANGED <<w, fed, ands>>
Next == Begin \/ Feed \/ Pub \/ AndOp \/ Linear \/ Compound \/ Reveal \/ RevealN
=============================================================================
