------------------------------ MODULE BitsTrace -----------------------------
EXTENDS TraceBase, Bits
VARIABLE l
ev == Trace[l]
Good == CASE ev.e = "trans" -> TransOk(ev.in, ev.out, ev.r, ev.c)
          [] ev.e = "tobool" -> ToBoolOk(ev.in, ev.out, ev.n, ev.rev)
          [] ev.e = "frombool" -> FromBoolOk(ev.in, ev.before, ev.out, ev.n, ev.rev)
          [] ev.e = "int2bool" -> IntToBoolOk(ev.in, ev.out, ev.n, ev.sg)
          [] ev.e = "bool2int" -> BoolToIntOk(ev.in, ev.out)
          [] ev.e = "setbit" -> SetBitOk(ev.in, ev.n, ev.out)
          [] ev.e = "lsb" -> ev.out = BitOf(ev.in, 0)
          [] ev.e = "make" -> ev.out = ev.lo \o ev.hi
          [] ev.e = "xorarr" -> ev.out = XorSeq(ev.a, ev.b)
          [] ev.e = "xoreach" -> ev.out = XorEach(ev.a, ev.b)
          [] ev.e = "cmp" -> ev.out = (ev.a = ev.b)
          [] ev.e = "show" -> ev.out = Shown(ev.in)
          [] ev.e = "bulk" -> ev.bad = -1     \* sizes too long to write down, compared bit by bit with the definition
          [] OTHER -> FALSE
Init == l = 1
Next == l <= N /\ ev.ok /\ Good /\ l' = l + 1
=============================================================================
