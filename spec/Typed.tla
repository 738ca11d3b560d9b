-------------------------------- MODULE Typed --------------------------------
(* Typed messages form one queue: whatever was sent, with its type and       *)
(* length, is what the matching receive returns. The sent-byte counter       *)
(* equals the bytes the transport saw.                                       *)
EXTENDS Integers, Sequences
VARIABLES queue, ctr
TNew == queue' = <<>> /\ ctr' = 0
Exact(m) == CASE m.k = "data" -> m.d = m.n [] m.k = "block" -> m.d = 16 * m.n [] OTHER -> m.d >= 0
TSend(m) == m.same /\ Exact(m) /\ queue' = Append(queue, [k |-> m.k, n |-> m.n, v |-> m.v]) /\ ctr' = ctr + m.d
TRecv(m) == m.intact /\ queue # <<>> /\ Head(queue) = [k |-> m.k, n |-> m.n, v |-> m.v] /\ queue' = Tail(queue) /\ UNCHANGED ctr
TLen(c, t) == c = ctr /\ t = c /\ UNCHANGED <<queue,ctr>>
TDone(c, t) == queue = <<>> /\ c = ctr /\ (t = -1 \/ t = c) /\ UNCHANGED <<queue,ctr>>
=============================================================================
