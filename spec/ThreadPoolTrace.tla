--------------------------- MODULE ThreadPoolTrace --------------------------
EXTENDS TraceBase, ThreadPool
VARIABLE l
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Init == l = 1 /\ Start0 /\ TLCSet(7, 1)
Vis == \/ Is("new") /\ stop = "over" /\ ev.size = ev.n /\ New(ev.n)
       \/ Is("inv") /\ Invoke(ev.t)
       \/ Is("ret") /\ Return(ev.t)
       \/ Is("rej") /\ Reject(ev.t)
       \/ Is("start") /\ Begin(ev.t, ev.w)
       \/ Is("end") /\ End(ev.t, ev.w)
       \/ Is("dbeg") /\ DBegin
       \/ Is("dend") /\ DEnd
       \/ Is("fut") /\ ev.match /\ Ready(ev.t)
       \* a whole life with many tasks still queued at destruction, folded: every accepted task ran exactly once, in order
       \/ Is("bulk") /\ stop = "over" /\ ev.size = ev.n /\ ev.rej = 0 /\ ev.once = ev.cnt /\ ev.runs = ev.cnt /\ ev.thr \in 1..ev.n /\ ev.fifo /\ ev.futs = ev.cnt /\ UNCHANGED pvars
       \/ Is("over") /\ stop = "over" /\ ev.futs = Cardinality(acc) /\ UNCHANGED pvars
Next == Vis \/ (l <= N /\ Hidden /\ UNCHANGED l)
Mark == IF l > TLCGet(7) THEN TLCSet(7, l) ELSE TRUE
AcceptedH == IF TLCGet(7) = N + 1 THEN TRUE ELSE PrintT(<<"REJECTED_AT", TLCGet(7)>>) /\ FALSE
=============================================================================
