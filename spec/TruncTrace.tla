----------------------------- MODULE TruncTrace -----------------------------
EXTENDS TraceBase, Trunc
VARIABLE l
Init == l = 1
Next == l <= N /\ Trace[l].e = "trunc" /\ TruncOk(Trace[l]) /\ l' = l + 1
=============================================================================
