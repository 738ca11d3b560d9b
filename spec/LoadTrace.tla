----------------------------- MODULE LoadTrace ------------------------------
(* Circuit files and gate arrays: whatever way a circuit is loaded and run,   *)
(* its outputs are those its gate list denotes.                               *)
EXTENDS TraceBase, Circ
VARIABLES l, exp, hd
ev == Trace[l]
Init == l = 1 /\ exp = <<>> /\ hd = <<>>
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Circuit == Is("circ") /\ exp' = Outs(Denote(ev.w, ev.m, ev.g), ev.w, ev.nout) /\ hd' = <<Len(ev.g), ev.w, ev.nin, ev.nout>>
Out == Is("out") /\ ev.o = exp /\ UNCHANGED <<exp, hd>>
Hdr == Is("hdr") /\ hd = <<ev.lg, ev.lw, ev.li, ev.lo>> /\ UNCHANGED <<exp, hd>>
Next == Circuit \/ Out \/ Hdr
=============================================================================
