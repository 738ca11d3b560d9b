----------------------------- MODULE ThreadPoolMC ---------------------------
EXTENDS ThreadPoolModel
CONSTANTS t1
ChildC == t1 :> "c1"
=============================================================================
