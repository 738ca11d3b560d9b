-------------------------------- MODULE Conn --------------------------------
(* Establishing and ending a channel, as its two endpoints see it. Several   *)
(* pairs, each with ports of its own, exist at the same time; a session of a *)
(* pair goes through begin - up - heard - shut on each side (0 = server,     *)
(* 1 = client). A side is up only after both sides have begun: whoever comes *)
(* first waits. It hears its own peer and nobody else, the port is no longer *)
(* open to third parties once both are up, and when everything is shut the   *)
(* process holds the descriptors it held before.                             *)
EXTENDS Integers, Sequences
VARIABLES st, pairs, sess
P == {0,1}
Fresh(k) == st = [q \in 1..k |-> [p \in P |-> "none"]] /\ pairs = k
Set(q, p, v) == st' = [st EXCEPT ![q][p] = v] /\ UNCHANGED pairs
Begin(q, p) == st[q][p] = "none" /\ Set(q, p, "beg") /\ UNCHANGED sess
Up(q, p) == st[q][p] = "beg" /\ st[q][1-p] # "none" /\ Set(q, p, "up") /\ UNCHANGED sess
Heard(q, p, token) == st[q][p] = "up" /\ st[q][1-p] \in {"up","heard"} /\ token = 1000*sess + 10*q + (1-p) /\ Set(q, p, "heard") /\ UNCHANGED sess
Closed(q, open) == st[q][0] = "heard" /\ st[q][1] = "heard" /\ ~open /\ UNCHANGED <<st,pairs,sess>>
Shut(q, p) == st[q][p] = "heard" /\ Set(q, p, "shut") /\ UNCHANGED sess
AllShut == \A q \in 1..pairs : \A p \in P : st[q][p] = "shut"
EndSession(delta) == AllShut /\ delta = 0 /\ sess' = sess + 1 /\ st' = [q \in 1..pairs |-> [p \in P |-> "none"]] /\ UNCHANGED pairs
(* a port number outside 0..65535 is refused, and nothing stays behind *)
BadPort(port, threw, delta) == (port < 0 \/ port > 65535) /\ threw /\ delta = 0 /\ UNCHANGED <<st,pairs,sess>>
=============================================================================
