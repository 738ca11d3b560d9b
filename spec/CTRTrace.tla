------------------------------ MODULE CTRTrace ------------------------------
EXTENDS TraceBase, CTR
VARIABLE l
ev == Trace[l]
Good == CASE ev.e = "bytes" -> BytesOk(ev.key, ev.iv, ev.start, ev.in, ev.out)
          [] ev.e = "bits" -> BitsOk(ev.key, ev.iv, ev.start, ev.in, ev.out)
          [] ev.e = "null" -> ev.rc # 0
          [] ev.e = "bulk" -> ev.bad = -1     \* long messages: at once = block by block, in circuit = outside
          [] OTHER -> FALSE
Init == l = 1
Next == l <= N /\ ev.ok /\ Good /\ l' = l + 1
=============================================================================
