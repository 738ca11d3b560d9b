------------------------------- MODULE NetModel ------------------------------
(* NetIO's mechanism: a write buffer of BUF bytes per party, a wire, and a   *)
(* read-ahead buffer filled with whatever the wire happens to deliver. The   *)
(* parties call send, recv, flush, sync and close in any order a well-formed *)
(* exchange allows. Checked: the peer receives exactly the stream, and a     *)
(* receive that is covered (Channel!MustEnd) always finds its bytes on the   *)
(* wire or in its read-ahead, so it cannot stall.                            *)
(* Variants (must be rejected): "shared" - one stdio stream for both         *)
(* directions, which drops its output if input is still unread; "noflush" -  *)
(* a receive does not push out pending output ("recv0": a receive of zero    *)
(* bytes does not); "syncnoflush" - the client does not flush after its      *)
(* sync byte.                                                                *)
EXTENDS Channel, FiniteSets
CONSTANTS BUF, MAX, SYNCS, Variant
VARIABLES wb, wire, rb, hs, step, gotbad
vars == <<sb,se,cov,rc,pend,syn,closed,wb,wire,rb,hs,step,gotbad>>
(* bytes on the wire: positions, or -1 for a sync byte *)
Init == Fresh /\ wb = [p \in P |-> <<>>] /\ wire = [p \in P |-> <<>>] /\ rb = [p \in P |-> <<>>] /\ hs = [p \in P |-> FALSE]
        /\ step = [p \in P |-> 0] /\ gotbad = FALSE
Q(p) == 1 - p
Drained == sb[0] = rc[1] /\ sb[1] = rc[0]
(* well-formed use: receive only what will have been sent; sync and close on drained streams *)
Start(p, op, n) == Beg(p, op, n) /\ step' = [step EXCEPT ![p] = 0] /\ UNCHANGED <<wb,wire,rb,hs,gotbad>>
NoClose == closed[0] = "no" /\ closed[1] = "no"
StartSend(p) == NoClose /\ \E n \in 0..2 : sb[p] + n <= MAX /\ syn[0] = syn[1] /\ Start(p, "send", n)
StartRecv(p) == \E n \in 0..2 : rc[p] + n <= sb[Q(p)] /\ syn[0] = syn[1] /\ Start(p, "recv", n)
StartFlush(p) == Start(p, "flush", 0)
StartSync(p) == syn[p] < SYNCS /\ NoClose /\ Drained /\ (\A q \in P : pend[q].op \in {"idle","sync"}) /\ syn[p] <= syn[Q(p)] /\ Start(p, "sync", 0)
StartClose(p) == rc[p] = sb[Q(p)] /\ syn[0] = syn[1] /\ (\A q \in P : pend[q].op \notin {"send","sync"}) /\ Start(p, "close", 0)
Keep == UNCHANGED <<sb,se,cov,rc,pend,syn,closed>>
(* pushing the write buffer onto the wire; the shared variant loses it when input is unread *)
Push(p, s) == IF Variant = "shared" /\ rb[p] # <<>> THEN wire[p] ELSE wire[p] \o s
(* buffering s: everything that does not fit goes out *)
Buffer(p, s) == LET t == wb[p] \o s IN
   IF Len(t) > BUF THEN wire' = [wire EXCEPT ![p] = Push(p, SubSeq(t,1,Len(t)-1))] /\ wb' = [wb EXCEPT ![p] = SubSeq(t,Len(t),Len(t))]
   ELSE wb' = [wb EXCEPT ![p] = t] /\ UNCHANGED wire
FlushOut(p) == wire' = [wire EXCEPT ![p] = Push(p, wb[p])] /\ wb' = [wb EXCEPT ![p] = <<>>]
Iota(a, n) == [i \in 1..n |-> a + i - 1]
Next4(p, k) == step' = [step EXCEPT ![p] = k]
SendBody(p) == pend[p].op = "send" /\ step[p] = 0 /\ Buffer(p, Iota(se[p], pend[p].n)) /\ hs' = [hs EXCEPT ![p] = TRUE] /\ Next4(p,9) /\ Keep /\ UNCHANGED <<rb,gotbad>>
FlushBody(p) == pend[p].op \in {"flush","close"} /\ step[p] = 0 /\ FlushOut(p) /\ Next4(p,9) /\ Keep /\ UNCHANGED <<rb,hs,gotbad>>
RecvPush(p) == pend[p].op = "recv" /\ step[p] = 0 /\ (IF hs[p] /\ Variant # "noflush" /\ ~(Variant = "recv0" /\ pend[p].n = 0) THEN FlushOut(p) ELSE UNCHANGED <<wire,wb>>)
               /\ hs' = [hs EXCEPT ![p] = FALSE] /\ Next4(p,1) /\ Keep /\ UNCHANGED <<rb,gotbad>>
(* one read: any nonempty part of what is on the wire *)
Read(p) == Len(rb[p]) < 1 + pend[p].n /\ \E k \in 1..Len(wire[Q(p)]) : rb' = [rb EXCEPT ![p] = @ \o SubSeq(wire[Q(p)],1,k)]
           /\ wire' = [wire EXCEPT ![Q(p)] = SubSeq(@,k+1,Len(@))]
RecvFill(p) == pend[p].op = "recv" /\ step[p] = 1 /\ Len(rb[p]) < pend[p].n /\ Read(p) /\ Keep /\ UNCHANGED <<wb,hs,step,gotbad>>
RecvDone(p) == pend[p].op = "recv" /\ step[p] = 1 /\ Len(rb[p]) >= pend[p].n
               /\ gotbad' = (gotbad \/ SubSeq(rb[p],1,pend[p].n) # Iota(rc[p], pend[p].n))
               /\ rb' = [rb EXCEPT ![p] = SubSeq(@,pend[p].n+1,Len(@))] /\ Next4(p,9) /\ Keep /\ UNCHANGED <<wire,wb,hs>>
(* sync: the server (party 0) speaks first *)
SyncSend(p, s) == pend[p].op = "sync" /\ step[p] = s /\ Buffer(p, <<-1>>) /\ hs' = [hs EXCEPT ![p] = TRUE] /\ Next4(p, s+1) /\ Keep /\ UNCHANGED <<rb,gotbad>>
SyncPush(p, s) == pend[p].op = "sync" /\ step[p] = s /\ (IF hs[p] THEN FlushOut(p) ELSE UNCHANGED <<wire,wb>>) /\ hs' = [hs EXCEPT ![p] = FALSE] /\ Next4(p,s+1) /\ Keep /\ UNCHANGED <<rb,gotbad>>
SyncRead(p, s) == pend[p].op = "sync" /\ step[p] = s /\ rb[p] = <<>> /\ Read(p) /\ Keep /\ UNCHANGED <<wb,hs,step,gotbad>>
SyncGot(p, s) == pend[p].op = "sync" /\ step[p] = s /\ rb[p] # <<>> /\ gotbad' = (gotbad \/ Head(rb[p]) # -1) /\ rb' = [rb EXCEPT ![p] = Tail(@)] /\ Next4(p,s+1) /\ Keep /\ UNCHANGED <<wire,wb,hs>>
SyncServer(p) == p = 0 /\ (SyncSend(p,0) \/ SyncPush(p,1) \/ SyncRead(p,2) \/ (SyncGot(p,2) /\ TRUE))
SyncClient(p) == p = 1 /\ (SyncPush(p,0) \/ SyncRead(p,1) \/ SyncGot(p,1) \/ SyncSend(p,2)
                 \/ (pend[p].op = "sync" /\ step[p] = 3 /\ (IF Variant = "syncnoflush" THEN UNCHANGED <<wire,wb>> ELSE FlushOut(p)) /\ Next4(p,9) /\ Keep /\ UNCHANGED <<rb,hs,gotbad>>))
DoneStep(p) == step[p] = (IF pend[p].op = "sync" /\ p = 0 THEN 3 ELSE 9)
Return(p) == pend[p] # Idle /\ DoneStep(p) /\ Fin(p, pend[p].op, pend[p].n) /\ UNCHANGED <<wb,wire,rb,hs,step,gotbad>>
Await(p) == FALSE
Next == (\E p \in P : StartSend(p) \/ StartRecv(p) \/ StartFlush(p) \/ StartSync(p) \/ StartClose(p)
           \/ SendBody(p) \/ FlushBody(p) \/ RecvPush(p) \/ RecvFill(p) \/ RecvDone(p) \/ SyncServer(p) \/ SyncClient(p) \/ Return(p))
        \/ (Over /\ UNCHANGED vars)
Inv == ~gotbad
(* a covered call is never stuck: it can take a step of its own *)
CanStep(p) == LET o == pend[p] IN
   CASE o.op = "recv" -> step[p] # 1 \/ Len(rb[p]) >= o.n \/ wire[Q(p)] # <<>>
     [] o.op = "sync" /\ p = 0 -> step[p] # 2 \/ rb[p] # <<>> \/ wire[1] # <<>> \/ pend[1].op = "sync"
     [] o.op = "sync" /\ p = 1 -> step[p] # 1 \/ rb[p] # <<>> \/ wire[0] # <<>> \/ pend[0].op = "sync"
     [] OTHER -> TRUE
(* the receive can get all it needs: everything covered is on its way *)
NoStall == \A p \in P : (pend[p].op = "recv" /\ step[p] = 1 /\ MustEnd(p) /\ (pend[Q(p)] = Idle \/ step[Q(p)] # 0))
                         => Len(rb[p]) + Len(wire[Q(p)]) >= pend[p].n
NoSyncStall == \A p \in P : (pend[p].op = "sync" /\ step[p] = (IF p = 0 THEN 2 ELSE 1) /\ syn[Q(p)] >= syn[p] /\ (pend[Q(p)].op # "sync" \/ step[Q(p)] >= (IF p = 0 THEN 4 ELSE 2)))
                         => rb[p] # <<>> \/ wire[Q(p)] # <<>>
(* after close the whole stream is on its way *)
CloseDelivers == \A p \in P : closed[p] = "yes" => rc[Q(p)] + Len(SelectSeq(rb[Q(p)], LAMBDA x : x >= 0)) + Len(SelectSeq(wire[p], LAMBDA x : x >= 0)) >= sb[p] - 0
                    \/ pend[Q(p)].op = "recv"
BothStuck == (\A p \in P : pend[p] # Idle /\ ~CanStep(p))
NoDeadlock == ~(\E p \in P : MustEnd(p) /\ pend[p].op = "recv" /\ ~CanStep(p) /\ (pend[Q(p)] = Idle \/ ~CanStep(Q(p))))
=============================================================================
