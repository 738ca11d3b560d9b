------------------------------ MODULE HashTrace -----------------------------
EXTENDS TraceBase, Hash
VARIABLES l, st
ev == Trace[l]
Is(e) == l <= N /\ ev.e = e /\ ev.ok /\ l' = l + 1
Init == l = 1 /\ st = <<Fresh, Fresh>>
New == Is("new") /\ st' = [st EXCEPT ![ev.o] = Fresh]
Put == Is("put") /\ st' = [st EXCEPT ![ev.o] = Absorb(st[ev.o], ev.data)]
Dig == Is("digest") /\ ev.out = Digest(st[ev.o]) /\ st' = [st EXCEPT ![ev.o] = Fresh]
Reset == Is("reset") /\ st' = [st EXCEPT ![ev.o] = Fresh]
Once == Is("once") /\ ev.out = SHA256(ev.data) /\ UNCHANGED st
Block == Is("block") /\ ev.out = SubSeq(SHA256(ev.data), 1, 16) /\ UNCHANGED st
KDF == Is("kdf") /\ ev.out = SubSeq(SHA256(ev.point \o ev.id), 1, 16) /\ UNCHANGED st
Bulk == Is("bulk") /\ ev.once = ev.ref /\ ev.put = ev.ref /\ ev.blk = SubSeq(ev.ref, 1, 16) /\ UNCHANGED st
Next == Bulk \/ New \/ Put \/ Dig \/ Reset \/ Once \/ Block \/ KDF
=============================================================================
