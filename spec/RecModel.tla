------------------------------ MODULE RecModel ------------------------------
(* Design of the clear backend and recorder: labels are public constants or   *)
(* secret wires with a number; gates with a public operand are folded, others *)
(* are emitted; finishing appends one zero wire and one gate per output. All  *)
(* programs of up to G operations over two secret inputs.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS G, Variant
VARIABLES asg, wires, gates, ands, truth, outs, n
vars == <<asg, wires, gates, ands, truth, outs, n>>
A == 0..3
(* wire: [pub, v (value in this run), id (file wire), t (set of assignments where it is 1: the program's meaning)] *)
InBit(i, a) == IF i = 0 THEN a % 2 ELSE a \div 2
TT(i) == {a \in A : InBit(i, a) = 1}
Sec(v, id, t) == [pub |-> FALSE, v |-> v, id |-> id, t |-> t]
Pub(b, t) == [pub |-> TRUE, v |-> b, id |-> 0, t |-> t]
Init == /\ asg \in A /\ gates = <<>> /\ ands = 0 /\ truth = 0 /\ outs = <<>> /\ n = 0
        /\ wires = <<Sec(InBit(0, asg), 0, TT(0)), Sec(InBit(1, asg), 1, TT(1)), Pub(0, {}), Pub(1, A)>>
NextId == 2 + Len(gates)
SD(x, y) == (x \ y) \cup (y \ x)
Emit(g, w) == gates' = Append(gates, g) /\ wires' = Append(wires, w)
Give(w) == UNCHANGED gates /\ wires' = Append(wires, w)
DoNot(x, t) == IF x.pub THEN Give([x EXCEPT !.v = 1 - @, !.t = t]) ELSE Emit(<<2, x.id, x.id, NextId>>, Sec(1 - x.v, NextId, t))
And(x, y) == LET t == x.t \cap y.t IN
  /\ truth' = truth + (IF x.pub \/ y.pub THEN 0 ELSE 1)
  /\ IF x.pub /\ x.v = 1 THEN Give([y EXCEPT !.t = t]) /\ UNCHANGED ands
     ELSE IF y.pub /\ y.v = 1 THEN Give([x EXCEPT !.t = t]) /\ UNCHANGED ands
     ELSE IF x.pub \/ y.pub THEN Give(Pub(0, t)) /\ UNCHANGED ands
     ELSE IF Variant = "valuefold" /\ x.v = 0 THEN Give(Pub(0, t)) /\ UNCHANGED ands
     ELSE Emit(<<0, x.id, y.id, NextId>>, Sec(x.v * y.v, NextId, t)) /\ ands' = ands + 1
Xor(x, y) == LET t == SD(x.t, y.t) IN
  /\ UNCHANGED <<ands, truth>>
  /\ IF x.pub /\ x.v = 1 THEN DoNot(y, t)
     ELSE IF y.pub /\ y.v = 1 THEN (IF Variant = "nonot" THEN Give([x EXCEPT !.t = t]) ELSE DoNot(x, t))
     ELSE IF x.pub THEN Give([y EXCEPT !.t = t])
     ELSE IF y.pub THEN Give([x EXCEPT !.t = t])
     ELSE Emit(<<1, x.id, y.id, NextId>>, Sec((x.v + y.v) % 2, NextId, t))
Op == /\ n < G /\ n' = n + 1 /\ UNCHANGED <<asg, outs>>
      /\ (\E i, j \in 1..Len(wires) : (And(wires[i], wires[j]) \/ Xor(wires[i], wires[j]) \/ (i = j /\ UNCHANGED <<ands, truth>> /\ DoNot(wires[i], A \ wires[i].t))))
Reveal == /\ n < G /\ n' = n + 1 /\ (\E i \in 1..Len(wires) : outs' = Append(outs, i)) /\ UNCHANGED <<asg, wires, gates, ands, truth>>
Next == Op \/ Reveal
Spec == Init /\ [][Next]_vars
(* the file written if recording stopped now *)
Z == NextId
OutGate(w, id) == IF w.pub /\ Variant # "constwire0" THEN (IF w.v = 1 THEN <<2, Z, Z, id>> ELSE <<1, Z, Z, id>>) ELSE <<1, Z, w.id, id>>
FileGates == gates \o <<<<1, 0, 0, Z>>>> \o [k \in 1..Len(outs) |-> OutGate(wires[outs[k]], Z + k)]
(* denotation on one assignment *)
RECURSIVE Ev(_, _, _)
Ev(w, gs, k) == IF k > Len(gs) THEN w
   ELSE LET g == gs[k] r == (CASE g[1] = 0 -> w[g[2]+1] * w[g[3]+1] [] g[1] = 1 -> (w[g[2]+1] + w[g[3]+1]) % 2 [] OTHER -> 1 - w[g[2]+1])
        IN Ev(Append(w, r), gs, k + 1)
FileRight == \A a \in A : LET w == Ev(<<InBit(0, a), InBit(1, a)>>, FileGates, 1) IN
   \A k \in 1..Len(outs) : w[Z + k + 1] = (IF a \in wires[outs[k]].t THEN 1 ELSE 0)
ValuesRight == \A i \in 1..Len(wires) : wires[i].v = (IF asg \in wires[i].t THEN 1 ELSE 0)
PublicRight == \A i \in 1..Len(wires) : wires[i].pub => wires[i].t \in {{}, A}
CountRight == ands = truth
=============================================================================
