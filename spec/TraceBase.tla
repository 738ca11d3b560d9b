----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded execution and the acceptance condition shared by all  *)
(* trace specifications: one state per accepted line, plus the initial one. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = N THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
