------------------------------- MODULE HSModel -------------------------------
(* HighSpeedNetIO's mechanism with chunk size C: the sender collects bytes,  *)
(* and flushing pads with zeros to a multiple of C; the receiver reads whole *)
(* chunks and discards the rest of a chunk when the direction turns or both  *)
(* flush. Two parties take turns. Checked: bytes arrive in order, the wire   *)
(* carries only payload and zeros, a covered receive finds a whole chunk.    *)
(* Variants that must be rejected: "padstale" pads with what the buffer      *)
(* holds, "nopad" does not pad, "keepptr" keeps the read pointer at a turn.  *)
EXTENDS Integers, Sequences
CONSTANTS C, MAX, TURNS, Variant
VARIABLES turn, phase, out, inn, fsm, sbuf, ssent, rbuf, rptr, wire, bad, t, stale
vars == <<turn,phase,out,inn,fsm,sbuf,ssent,rbuf,rptr,wire,bad,t,stale>>
P == {0,1}
Q(p) == 1 - p
(* out[p]/inn[p]: bytes p has sent / received in all; fsm as in the code *)
Init == turn \in P /\ phase = "send" /\ out = [p \in P |-> 0] /\ inn = [p \in P |-> 0] /\ fsm = [p \in P |-> 0] /\ sbuf = [p \in P |-> <<>>]
        /\ ssent = [p \in P |-> 0] /\ rbuf = [p \in P |-> <<>>] /\ rptr = [p \in P |-> C] /\ wire = [p \in P |-> <<>>] /\ bad = FALSE /\ t = 0
        /\ stale = [p \in P |-> [i \in 1..C |-> 99]]
Iota(a, n) == [i \in 1..n |-> a + i]
(* bytes flushing puts on the wire *)
Pad(p, n) == LET r == n % C IN IF r = 0 \/ Variant = "nopad" THEN <<>> ELSE IF Variant = "padstale" THEN SubSeq(stale[p], 1, C - r) ELSE [i \in 1..(C-r) |-> 0]
Flushed(p) == sbuf[p] \o Pad(p, ssent[p] + Len(sbuf[p]))
DoFlush(p) == wire' = [wire EXCEPT ![p] = @ \o Flushed(p)] /\ ssent' = [ssent EXCEPT ![p] = @ + Len(Flushed(p))] /\ sbuf' = [sbuf EXCEPT ![p] = <<>>]
TurnIn(p) == IF fsm[p] = 1 /\ Variant # "keepptr" THEN [rptr EXCEPT ![p] = C] ELSE rptr
Send(n) == LET p == turn s == Iota(out[p], n) IN
   /\ phase = "send" /\ out[p] + n <= MAX
   /\ rptr' = TurnIn(p) /\ fsm' = [fsm EXCEPT ![p] = 2] /\ out' = [out EXCEPT ![p] = @ + n]
   /\ (IF n <= C - Len(sbuf[p]) THEN sbuf' = [sbuf EXCEPT ![p] = @ \o s] /\ UNCHANGED <<wire,ssent>>
       ELSE wire' = [wire EXCEPT ![p] = @ \o sbuf[p] \o s] /\ ssent' = [ssent EXCEPT ![p] = @ + Len(sbuf[p]) + n] /\ sbuf' = [sbuf EXCEPT ![p] = <<>>])
   /\ stale' = [stale EXCEPT ![p] = IF n > 0 THEN [i \in 1..C |-> out[p] + n] ELSE @]
   /\ UNCHANGED <<turn,phase,inn,rbuf,bad,t>>
EndSend == phase = "send" /\ fsm[turn] = 2 /\ phase' = "push" /\ UNCHANGED <<turn,out,inn,fsm,sbuf,ssent,rbuf,rptr,wire,bad,t,stale>>
(* the sender turns to receiving (or flushes, or closes) *)
SenderPush == phase = "push" /\ DoFlush(turn) /\ phase' = "recv" /\ UNCHANGED <<turn,out,inn,fsm,rbuf,rptr,bad,t,stale>>
(* the receiver's own pending output goes out when it starts to receive; with turn taking there is none left *)
Recv(n) == LET q == Q(turn) IN
   /\ phase = "recv" /\ inn[q] + n <= out[turn]
   /\ fsm' = [fsm EXCEPT ![q] = 1]
   /\ (LET have == SubSeq(rbuf[q], rptr[q]+1, C) need == n - Len(have) k == IF need <= 0 THEN 0 ELSE (need + C - 1) \div C IN
      IF n <= Len(have) THEN bad' = (bad \/ SubSeq(have,1,n) # Iota(inn[q],n)) /\ rptr' = [rptr EXCEPT ![q] = @ + n] /\ UNCHANGED <<rbuf,wire>>
      ELSE IF Len(wire[turn]) < k * C THEN bad' = TRUE /\ UNCHANGED <<rbuf,wire,rptr>>          \* would stall although covered
      ELSE LET got == have \o SubSeq(wire[turn], 1, k*C) IN
           /\ bad' = (bad \/ SubSeq(got,1,n) # Iota(inn[q],n))
           /\ rbuf' = [rbuf EXCEPT ![q] = SubSeq(wire[turn], (k-1)*C+1, k*C)] /\ rptr' = [rptr EXCEPT ![q] = need - (k-1)*C]
           /\ wire' = [wire EXCEPT ![turn] = SubSeq(@, k*C+1, Len(@))])
   /\ inn' = [inn EXCEPT ![q] = @ + n] /\ UNCHANGED <<turn,phase,out,sbuf,ssent,t,stale>>
Drained == inn[Q(turn)] = out[turn] /\ fsm[Q(turn)] = 1
Swap == phase = "recv" /\ Drained /\ t < TURNS /\ t' = t + 1 /\ turn' = Q(turn) /\ phase' = "send" /\ UNCHANGED <<out,inn,fsm,sbuf,ssent,rbuf,rptr,wire,bad,stale>>
FlushBoth == phase = "recv" /\ Drained /\ t < TURNS /\ t' = t + 1 /\ turn' \in P /\ phase' = "send" /\ fsm' = [p \in P |-> 0] /\ rptr' = [p \in P |-> C]
   /\ UNCHANGED <<out,inn,sbuf,ssent,rbuf,wire,bad,stale>>
Next == (\E n \in 0..(C+2) : Send(n) \/ Recv(n)) \/ EndSend \/ SenderPush \/ Swap \/ FlushBoth
Inv == ~bad
(* only zeros and payload positions in order ever travel *)
WireClean == \A p \in P : LET s == SelectSeq(wire[p], LAMBDA x : x # 0) IN s = <<>> \/ (s = Iota(s[1]-1, Len(s)) /\ s[Len(s)] <= out[p])
=============================================================================
