------------------------------ MODULE GF2Trace ------------------------------
EXTENDS TraceBase, GF2
VARIABLE l
ev == Trace[l]
Lo(v) == SubSeq(v,1,L)
Hi(v) == SubSeq(v,L+1,2*L)
Good == CASE ev.e = "mul" -> ev.out = ClMul(ev.a, ev.b)
          [] ev.e = "gfmul" -> ev.out = MulMod(ev.a, ev.b)
          [] ev.e = "gfmulr" -> ev.out = MulReflect(ev.a, ev.b)
          [] ev.e = "red" -> ev.out = Reduce(ev.a, ev.b)
          [] ev.e = "redr" -> ev.out = ReduceReflect(ev.a, ev.b)
          [] ev.e = "inn" -> ev.out = InnerRed(ev.a, ev.b)
          [] ev.e = "innn" -> ev.out = InnerNoRed(ev.a, ev.b)
          [] ev.e = "coeff" -> ev.out = Powers(ev.a, ev.n)
          [] ev.e = "pack" -> Len(ev.a) = NBits /\ ev.out = Pack(ev.a)
          [] ev.e = "sum" -> ev.out = SumAll(ev.a)
          (* long vectors, recorded as agreement with the element-wise operations *)
          [] ev.e = "bulk" -> ev.nored /\ ev.red /\ ev.sum /\ ev.bad = -1
          [] OTHER -> FALSE
Init == l = 1
Next == l <= N /\ ev.ok /\ Good /\ l' = l + 1
=============================================================================
