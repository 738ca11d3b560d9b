------------------------------ MODULE RecTrace ------------------------------
(* Recorded circuit files: header, gate list, and the loaded circuit, against *)
(* the program that was recorded.                                             *)
EXTENDS TraceBase, Circ
VARIABLE l
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Wv(w, i) == IF i + 1 <= Len(w) THEN w[i+1] ELSE 0
(* fold state: wires so far, outputs so far, inputs consumed *)
Step(m, acc, o) ==
  IF o.op = "feed" THEN [acc EXCEPT !.w = @ \o SubSeq(m, acc.f + 1, acc.f + o.a), !.f = @ + o.a]
  ELSE IF o.op = "reveal" THEN [acc EXCEPT !.o = Append(@, Wv(acc.w, o.a))]
  ELSE IF o.op = "revealn" THEN [acc EXCEPT !.o = @ \o [i \in 1..o.b |-> Wv(acc.w, o.a + i - 1)]]
  ELSE [acc EXCEPT !.w = @ \o OpVals(o.op, o.a, o.b, o.c, Wv(acc.w, o.a), Wv(acc.w, o.b), Wv(acc.w, o.c))]
Expected(m, prog) == Fold(LAMBDA acc, o : Step(m, acc, o), [w |-> <<>>, o |-> <<>>, f |-> 0], prog)
(* file gates are <<type, 1, ins.., out>> *)
GateOf(x) == IF x[1] = 2 THEN <<2, x[3], 0, x[4]>> ELSE <<x[1], x[3], x[4], x[5]>>
WellShaped(x) == x[1] \in 0..2 /\ x[2] = 1 /\ Len(x) = (IF x[1] = 2 THEN 4 ELSE 5)
Ins(x) == IF x[1] = 2 THEN {x[3]} ELSE {x[3], x[4]}
OutW(x) == x[Len(x)]
File == /\ Len(ev.hdr) = 5 /\ ev.hdr = <<Len(ev.g), ev.hdr[2], ev.n1, ev.n2, ev.n3>>
        /\ \A i \in 1..Len(ev.g) : WellShaped(ev.g[i])
        /\ \A i \in 1..Len(ev.g) : OutW(ev.g[i]) \in (ev.n1 + ev.n2)..(ev.hdr[2] - 1)
        (* every wire is an input or the output of exactly one gate, and is set before it is read *)
        /\ ev.hdr[2] = ev.n1 + ev.n2 + Len(ev.g)
        /\ \A i \in 1..Len(ev.g) : \A j \in 1..(i-1) : OutW(ev.g[i]) # OutW(ev.g[j])
        /\ \A i \in 1..Len(ev.g) : \A x \in Ins(ev.g[i]) : x \in 0..(ev.n1 + ev.n2 - 1) \/ (\E j \in 1..(i-1) : OutW(ev.g[j]) = x)
        /\ <<ev.lg, ev.lw, ev.l1, ev.l2, ev.l3>> = ev.hdr
Bit(x, c) == (x \div 2^c) % 2
Rec == /\ Is("rec") /\ File
       /\ \E x \in {Expected(ev.m, ev.prog).o} :
            /\ Len(x) = ev.n3
            /\ ev.rv = [i \in 1..ev.n3 |-> Bit(x[i], ev.col)]
            /\ Outs(Denote(ev.hdr[2], ev.m, [i \in 1..Len(ev.g) |-> GateOf(ev.g[i])]), ev.hdr[2], ev.n3) = x
            /\ ev.out = x /\ ev.out2 = x
(* a large recording, out[i] = a[i] op b[i]: header and loaded circuit agree with the gate lines, results judged by the recorder *)
RecBig == /\ Is("recbig") /\ ev.ok /\ Len(ev.hdr) = 5 /\ ev.ld = ev.hdr
          /\ ev.hdr = <<ev.lines, 2 * ev.n + ev.lines, ev.n, ev.n, ev.n>>
Next == Rec \/ RecBig
=============================================================================
