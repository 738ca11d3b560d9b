------------------------------ MODULE GarbleTrace -----------------------------
(* Recorded generator/evaluator runs. With TABLES=1 the transcript of every   *)
(* AND gate is also recomputed from the definition of the scheme.             *)
EXTENDS TraceBase, Garble
VARIABLE l
ev == Trace[l]
Tables == "TABLES" \in DOMAIN IOEnv /\ IOEnv.TABLES = "1"
(* HYG=1: judge the hygiene property (transcript sizes, counts, freshness); otherwise only correctness *)
Hyg == "HYG" \in DOMAIN IOEnv /\ IOEnv.HYG = "1"
Init == l = 1 /\ GInit
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Counted(n) == Hyg /\ n >= 0 => ev.ng = n /\ ev.ne = n
Silent == Hyg => ev.tx = 0 /\ ev.rx = 0
Free == Silent /\ Counted(ands) /\ ev.tx = ev.rx
(* constants: the generator's zero labels of 0 and 1 against what it sent    *)
Consts(s, d, sch) == /\ Len(s) >= 32
                /\ ev.c0 = SubSeq(s, 1, 16) /\ X16(ev.c1, d) = SubSeq(s, 17, 32)
                /\ (sch = "pf" => s[1] % 2 = 0 /\ s[17] % 2 = 1)
Setup == IF ev.sch = "hg" THEN 48 ELSE 32
Fresh(s) == LET k == Len(s) \div 16 IN {Blk(s, i) : i \in 1..k}
New == /\ Is("new") /\ Odd(ev.delta) /\ ev.tx = ev.rx
       /\ (Hyg => ev.ng = 0 /\ ev.ne = 0)
       /\ (ev.sent = <<>> \/ (Len(ev.sent) = Setup /\ ev.tx = Setup /\ Consts(ev.sent, ev.delta, ev.sch)))
       /\ (Hyg => LET f == Fresh(ev.sent) \cup {ev.delta} IN
                  Cardinality(f) = Len(ev.sent) \div 16 + 1 /\ f \cap dist = {})
       /\ scheme' = ev.sch /\ delta' = ev.delta /\ start' = ev.start
       /\ wires' = <<>> /\ ands' = 0 /\ pos' = Z8 /\ dist' = dist \cup Fresh(ev.sent) \cup {ev.delta}
Keep == UNCHANGED <<scheme, delta, start, pos, ands, dist>>
W(i) == wires[i+1]
Out(v) == (\E x \in {v} : Right(ev.g, ev.v, x) /\ wires' = Append(wires, [g |-> ev.g, e |-> ev.v, v |-> x]))
In == Is("in") /\ Free /\ Out(ev.a) /\ Keep
Const == Is("const") /\ Free /\ Out(ev.a) /\ Keep
Xr == Is("xor") /\ Free /\ Out((W(ev.a).v + W(ev.b).v) % 2) /\ Keep
Nt == Is("not") /\ Free /\ Out(1 - W(ev.a).v) /\ Keep
AndOk(a, b) == Tables => (\E t \in {Gate(a, b, pos)} : ev.tab = t.tab /\ ev.g = t.w)
An == /\ Is("and") /\ ev.tx = ev.rx /\ ((Hyg \/ scheme = "pf") => ev.tx = GateBytes)
      /\ Counted(IF ands < 0 THEN ands ELSE ands + 1)
      /\ Out(W(ev.a).v * W(ev.b).v) /\ AndOk(W(ev.a).g, W(ev.b).g)
      /\ pos' = Add8(pos, 2) /\ ands' = (IF ands < 0 THEN ands ELSE ands + 1)
      /\ UNCHANGED <<scheme, delta, start, dist>>
(* replacing the offset: new constants travel, labels of the old offset die   *)
Redelta == /\ Is("redelta") /\ Odd(ev.delta) /\ Hi(ev.delta) = Hi(ev.asked) /\ Tail(Lo(ev.delta)) = Tail(Lo(ev.asked))
           /\ ev.delta[1] \div 2 = ev.asked[1] \div 2
           /\ ev.tx = 32 /\ ev.rx = 32 /\ Len(ev.sent) = 32 /\ Consts(ev.sent, ev.delta, scheme)
           /\ Counted(ands)
           /\ (Hyg => Fresh(ev.sent) \cap dist = {} /\ Cardinality(Fresh(ev.sent)) = 2)
           /\ delta' = ev.delta /\ wires' = <<>> /\ dist' = dist \cup Fresh(ev.sent)
           /\ UNCHANGED <<scheme, start, ands, pos>>
Seek == Is("seek") /\ pos' = ev.at /\ ands' = 0 - 1 /\ UNCHANGED <<scheme, delta, start, wires, dist>>
(* one gate out of a long run: its operands are right, so must its output be *)
Val(g, e) == IF e = g THEN 0 ELSE 1
Two(n) == Add8(Add8(n, 0), 0)
Dbl8(x) == [i \in 1..8 |-> (2*x[i] % 256) + (IF i > 1 /\ x[i-1] > 127 THEN 1 ELSE 0)]
Far == /\ Is("far") /\ ((Hyg \/ scheme = "pf") => ev.tx = GateBytes)
       /\ (Hyg => ev.ng = Add8(ev.idx, 1) /\ ev.ne = Add8(ev.idx, 1))
       /\ Right(ev.ga, ev.va, Val(ev.ga, ev.va)) /\ Right(ev.gb, ev.vb, Val(ev.gb, ev.vb))
       /\ Right(ev.g, ev.v, Val(ev.ga, ev.va) * Val(ev.gb, ev.vb))
       /\ (Tables => (\E t \in {Gate(ev.ga, ev.gb, Dbl8(ev.idx))} : ev.tab = t.tab /\ ev.g = t.w))
       /\ UNCHANGED gvars
FarEnd == Is("farend") /\ ev.bad = 0 /\ (Hyg => ev.ng = ev.n /\ ev.ne = ev.n /\ ev.cbad = 0) /\ UNCHANGED gvars
End == Is("end") /\ ~ev.under /\ ev.left = 0 /\ UNCHANGED gvars
Next == New \/ In \/ Const \/ Xr \/ Nt \/ An \/ Redelta \/ Seek \/ Far \/ FarEnd \/ End
=============================================================================
