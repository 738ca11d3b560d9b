------------------------------ MODULE PRGTrace ------------------------------
(* Recorded PRG calls must be a behaviour of PRG with AES in counter mode.  *)
EXTENDS TraceBase, AES
VARIABLES l, seed, pos, words, seen
(* positions are 8 little-endian bytes; the counter block has a zero upper half *)
RECURSIVE AddAt(_,_,_)
AddAt(p,i,c) == IF c = 0 \/ i > 8 THEN p
                ELSE LET t == p[i] + c IN AddAt(TLCEval([p EXCEPT ![i] = t % 256]), i+1, t \div 256)
A(p,n) == AddAt(p, 1, n)
S(rk,p) == Enc(rk, p \o <<0,0,0,0,0,0,0,0>>)
Z8 == <<0,0,0,0,0,0,0,0>>
P == INSTANCE PRG WITH Stream <- S, Adv <- A, Origin <- Z8, BS <- 16, WB <- 16, WS <- 8
KeyOf(s, id) == RoundKeys(X16(s, id \o Z8))
Init == l = 1 /\ seed = <<>> /\ pos = Z8 /\ words = <<>> /\ seen = {}
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Same == UNCHANGED seen
New == Is("seed") /\ P!Reseed(KeyOf(ev.seed, ev.id)) /\ Same
Block == Is("block") /\ P!BlocksOut(ev.n, ev.out) /\ P!DrawBlocks(ev.n) /\ Same
Data == Is("data") /\ P!BytesOut(ev.n, ev.out) /\ P!DrawBytes(ev.n) /\ Same
Bool == Is("bool") /\ P!BoolsOut(ev.n, ev.out) /\ P!DrawBytes(ev.n) /\ Same
Word == Is("word") /\ ev.out = P!WordOut /\ P!DrawWord /\ Same
SeekTo == Is("seek") /\ P!Seek(ev.p) /\ Same
Fresh == Is("fresh") /\ ev.out \notin seen /\ seen' = seen \cup {ev.out} /\ UNCHANGED <<seed,pos,words>>
(* a large draw: the same bytes a reader of single blocks gets, a block of it judged here, and the position it leaves *)
Bulk == /\ Is("bulk") /\ ev.bad = -1 /\ P!DrawBytes(ev.n) /\ Same
        /\ (\A b \in {S(seed, A(pos, ev.at))} : \A i \in 1..Len(ev.out) : ev.out[i] = (IF ev.kind = 3 THEN b[i] % 2 ELSE b[i]))
Next == Bulk \/ New \/ Block \/ Data \/ Bool \/ Word \/ SeekTo \/ Fresh
=============================================================================
