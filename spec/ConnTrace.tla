------------------------------ MODULE ConnTrace ------------------------------
EXTENDS TraceBase, Conn
VARIABLE l
Init == l = 1 /\ st = <<>> /\ pairs = 0 /\ sess = 0
T == Trace[l]
New == T.e = "new" /\ st' = [q \in 1..T.pairs |-> [p \in P |-> "none"]] /\ pairs' = T.pairs /\ sess' = 0
Fin == T.e = "fin" /\ T.code = 0 /\ (\A q \in 1..pairs : \A p \in P : st[q][p] = "none") /\ UNCHANGED <<st,pairs,sess>>
Next == l <= N /\ l' = l + 1
        /\ \/ New \/ Fin
           \/ (T.e = "beg" /\ Begin(T.q, T.p))
           \/ (T.e = "up" /\ Up(T.q, T.p))
           \/ (T.e = "heard" /\ Heard(T.q, T.p, T.token) /\ T.ok)
           \/ (T.e = "probe" /\ Closed(T.q, T.open))
           \/ (T.e = "shut" /\ Shut(T.q, T.p))
           \/ (T.e = "end" /\ EndSession(T.delta) /\ T.sess = sess /\ T.wrong = 0)
           \/ (T.e = "bad" /\ BadPort(T.port, T.threw, T.delta))
=============================================================================
