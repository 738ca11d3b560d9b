------------------------------ MODULE SHA3Trace -----------------------------
(* Every recorded hash is SHA3-256 of the concatenated input, whatever was   *)
(* hashed before, whatever the split and whatever the backend.               *)
EXTENDS TraceBase
VARIABLE l
S == INSTANCE SHA3
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Plain == Is("plain") /\ ev.rc = 0 /\ ev.out = S!SHA3(ev.data)
Circ == Is("circ") /\ ev.out = S!SHA3Bits(ev.parts)
Bulk == Is("bulk") /\ ev.rc = 0 /\ Len(ev.pairs) = 4 /\ (\A i \in 1..4 : ev.pairs[i][1] = ev.pairs[i][2])
Next == Bulk \/ Plain \/ Circ
=============================================================================
