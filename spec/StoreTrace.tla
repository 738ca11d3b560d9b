----------------------------- MODULE StoreTrace -----------------------------
EXTENDS TraceBase, Store
VARIABLE l
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Init == l = 1 /\ SInit
(* a destination filled with the marker may be a legitimate read of one such byte only when runs is reported *)
Next == \/ Is("reset") /\ SReset
        \/ Is("mnew") /\ MNew
        \/ Is("msend") /\ MSend(ev.at, ev.n, ev.ctr)
        \/ Is("mrecv") /\ ev.intact /\ MRecv(ev.n, ev.un, Canon(ev.runs))
        \/ Is("mclear") /\ MClear
        \/ Is("mload") /\ MLoad(ev.n)
        \/ Is("fnew") /\ FNew(ev.read)
        \/ Is("fsend") /\ FSend(ev.at, ev.n, ev.ctr)
        \/ Is("frecv") /\ ev.intact /\ FRecv(ev.n, Canon(ev.runs))
        \/ Is("freset") /\ FRewind
        \/ Is("fflush") /\ FLen(ev.len)
        \/ Is("fclose") /\ FLen(ev.len)
        \/ Is("huge") /\ ev.ctr = <<32768, 4099>> /\ ev.match /\ UNCHANGED svars
=============================================================================
