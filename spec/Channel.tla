------------------------------- MODULE Channel ------------------------------
(* A duplex channel between parties 0 and 1 as its users see it. Byte k of   *)
(* the stream of party p is the k-th byte p ever sent; positions stand for   *)
(* contents. Calls have a beginning and an end; cov[p] is the prefix of p's  *)
(* stream the peer is entitled to receive without p doing anything more.     *)
EXTENDS Integers, Sequences
P == {0,1}
VARIABLES sb,     \* bytes in send calls begun, per party
          se,     \* bytes in send calls ended
          cov,    \* covered prefix of the stream
          rc,     \* bytes of the *peer's* stream this party has received
          pend,   \* call in progress: [op, n]
          syn,    \* number of sync calls begun
          closed  \* "no" | "closing" | "yes"
cvars == <<sb,se,cov,rc,pend,syn,closed>>
Idle == [op |-> "idle", n |-> 0]
Fresh == sb = [p \in P |-> 0] /\ se = [p \in P |-> 0] /\ cov = [p \in P |-> 0] /\ rc = [p \in P |-> 0]
         /\ pend = [p \in P |-> Idle] /\ syn = [p \in P |-> 0] /\ closed = [p \in P |-> "no"]
Renew == sb' = [p \in P |-> 0] /\ se' = [p \in P |-> 0] /\ cov' = [p \in P |-> 0] /\ rc' = [p \in P |-> 0]
         /\ pend' = [p \in P |-> Idle] /\ syn' = [p \in P |-> 0] /\ closed' = [p \in P |-> "no"]
Min(a,b) == IF a < b THEN a ELSE b
Beg(p, op, n) == /\ pend[p] = Idle /\ closed[p] = "no"
   /\ pend' = [pend EXCEPT ![p] = [op |-> op, n |-> n]]
   /\ sb' = (IF op = "send" THEN [sb EXCEPT ![p] = @ + n] ELSE sb)
   /\ cov' = (IF op \in {"recv","sync","close"} THEN [cov EXCEPT ![p] = se[p]] ELSE cov)
   /\ syn' = (IF op = "sync" THEN [syn EXCEPT ![p] = @ + 1] ELSE syn)
   /\ closed' = (IF op = "close" THEN [closed EXCEPT ![p] = "closing"] ELSE closed)
   /\ UNCHANGED <<se,rc>>
(* may the call p is in end normally now? *)
MayEnd(p) == LET o == pend[p] q == 1 - p IN
   CASE o.op = "recv" -> rc[p] + o.n <= sb[q]
     [] o.op = "sync" -> syn[q] >= syn[p]
     [] o.op = "await" -> rc[q] = sb[p]
     [] o.op = "idle" -> FALSE
     [] OTHER -> TRUE
(* must it end, even if nobody makes another call? *)
MustEnd(p) == LET o == pend[p] q == 1 - p IN
   CASE o.op = "recv" -> rc[p] + o.n <= cov[q]
     [] o.op = "sync" -> syn[q] >= syn[p]
     [] o.op = "await" -> rc[q] = sb[p]
     [] o.op = "idle" -> FALSE
     [] OTHER -> sb[p] - rc[q] <= 60000
Fin(p, op, n) == /\ pend[p] = [op |-> op, n |-> n] /\ MayEnd(p)
   /\ pend' = [pend EXCEPT ![p] = Idle]
   /\ se' = (IF op = "send" THEN [se EXCEPT ![p] = @ + n] ELSE se)
   /\ cov' = (IF op \in {"flush","close"} THEN [cov EXCEPT ![p] = se[p]] ELSE cov)
   /\ rc' = (IF op = "recv" THEN [rc EXCEPT ![p] = @ + n] ELSE rc)
   /\ closed' = (IF op = "close" THEN [closed EXCEPT ![p] = "yes"] ELSE closed)
   /\ UNCHANGED <<sb,syn>>
Stalled == (\A p \in P : ~MustEnd(p))
Over == (\A p \in P : closed[p] = "yes")
=============================================================================
