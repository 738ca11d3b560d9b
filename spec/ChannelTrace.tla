---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS TraceBase, Channel, FiniteSets
VARIABLES l, hs, wired
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Init == l = 1 /\ Fresh /\ hs = FALSE /\ wired = {}
Begin == Is("b") /\ Beg(ev.p, ev.op, ev.n) /\ UNCHANGED <<hs,wired>>
(* the data received is the stretch of the peer's stream that comes next *)
End == Is("e") /\ Fin(ev.p, ev.op, ev.n)
       /\ (ev.op = "recv" => ev.at = rc[ev.p])
       /\ (ev.op \in {"send","recv","flush"} => ev.ctr = sb[ev.p])
       /\ UNCHANGED <<hs,wired>>
(* HighSpeedNetIO's wire: the stream in order, and zeros *)
RECURSIVE Payload(_,_,_)
Payload(rs, i, k) == IF i > Len(rs) THEN k
                     ELSE IF rs[i].k = "zero" THEN Payload(rs, i+1, k)
                     ELSE IF rs[i].k = "data" /\ rs[i].at = k THEN Payload(rs, i+1, k + rs[i].n)
                     ELSE -1
Wire == Is("wire") /\ Over /\ Payload(ev.runs, 1, 0) = sb[ev.p] /\ wired' = wired \cup {ev.p} /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs>>
(* NetIO's wire: the streams plus one byte per sync, nothing else *)
WireLen == Is("wirelen") /\ Over /\ ev.n0 = sb[0] + syn[0] /\ ev.n1 = sb[1] + syn[1] /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs,wired>>
Back == Is("back") /\ ev.n = 0 /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs,wired>>
Stop == Is("over") /\ Over /\ ev.victims = 0 /\ ev.leaked = 0 /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs,wired>>
New == Is("new") /\ Renew /\ hs' = (ev.kind = "hs") /\ wired' = {}
Stuck == Is("stuck") /\ Stalled /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs,wired>>
(* one call moving 2^31 + 4099 bytes (written q*65536+r), then 5 more *)
Huge == Is("huge") /\ ev.n = <<32768, 4099>> /\ ev.ctr = <<32768, 4104>> /\ ev.match /\ ev.nonzero = ev.marks /\ UNCHANGED <<sb,se,cov,rc,pend,syn,closed,hs,wired>>
Next == Huge \/ New \/ Begin \/ End \/ Wire \/ WireLen \/ Back \/ Stop \/ Stuck
=============================================================================
