--------------------------- MODULE ObliviousTrace ---------------------------
(* One event is one operation with its public parameters (key) executed on    *)
(* several secret operand values: all observations must coincide.             *)
EXTENDS TraceBase
VARIABLE l
ev == Trace[l]
Init == l = 1
Next == /\ l <= N /\ ev.e = "group" /\ Len(ev.runs) >= 2
        /\ (\A i \in 2..Len(ev.runs) : ev.runs[i] = ev.runs[1])
        /\ l' = l + 1
=============================================================================
