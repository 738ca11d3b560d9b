---------------------------- MODULE FloatFunTrace ---------------------------
(* Observed secret-float functions against FloatFun. *)
EXTENDS TraceBase, Strict
VARIABLE l
T == INSTANCE FloatFun
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Q(k) == <<ev.q[k], ev.q[k+1]>>
Fun == Is("un") /\ ev.kept /\ (\A k \in 0..((Len(ev.q) \div 4) - 1) : S2(LAMBDA x, r : T!Ok(ev.op, x, r), Q(4*k+1), Q(4*k+3)))
Next == Fun
=============================================================================
