----------------------------- MODULE TypedTrace -----------------------------
EXTENDS TraceBase, Typed
VARIABLES l, vol
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Init == l = 1 /\ queue = <<>> /\ ctr = 0 /\ vol = <<0,0,0,0>>
(* bulk volumes, in 16-bit limbs: n raw bytes and n blocks, 17n in all *)
Carry(q) == LET a == q[1] b == q[2] + (a \div 65536) c == q[3] + (b \div 65536) d == q[4] + (c \div 65536)
            IN <<a % 65536, b % 65536, c % 65536, d % 65536>>
Vol == /\ Is("vol") /\ UNCHANGED <<queue, ctr>>
       /\ vol' = Carry([i \in 1..4 |-> vol[i] + 17 * ev.n[i]])
       /\ ev.ctr = vol' /\ ev.transport = vol'
(* long vectors: element by element the same, counted as what the transport took *)
Long == Is("long") /\ ev.bad = -1 /\ ev.intact /\ Exact(ev) /\ ev.d = ev.held /\ UNCHANGED <<queue, ctr, vol>>
Known == UNCHANGED vol
Op ==
        \/ Is("new") /\ TNew
        \/ Is("tx") /\ TSend(ev)
        \/ Is("rx") /\ TRecv(ev)
        \/ Is("len") /\ TLen(ev.ctr, ev.transport)
        \/ Is("done") /\ TDone(ev.ctr, ev.transport)
Next == \/ Vol \/ Long
        \/ Known /\ Op
=============================================================================
