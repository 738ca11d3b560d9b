----------------------------- MODULE ThreadTrace ----------------------------
(* Recorded interleavings: after every step the acting thread sees its own    *)
(* backend (both pointers), every other thread still sees its own, opened     *)
(* values are those of its program and its backend counted only its ANDs.     *)
EXTENDS TraceBase
VARIABLES l, own, w, cnt, nb
ev == Trace[l]
vars == <<l, own, w, cnt, nb>>
Thr == 1..3
Blank == /\ own = [t \in Thr |-> 0] /\ w = [t \in Thr |-> <<>>] /\ cnt = [t \in Thr |-> 0] /\ nb = 0
Init == l = 1 /\ Blank
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
New == Is("new") /\ own' = [t \in Thr |-> 0] /\ w' = [t \in Thr |-> <<>>] /\ cnt' = [t \in Thr |-> 0] /\ nb' = 0
V(i) == w[ev.t][i + 1]
Same == UNCHANGED <<own, w, cnt, nb>>
Push(v, g) == w' = [w EXCEPT ![ev.t] = Append(@, v)] /\ cnt' = [cnt EXCEPT ![ev.t] = @ + g] /\ UNCHANGED <<own, nb>>
Step == /\ Is("step")
        /\ CASE ev.op = "install" -> nb' = nb + 1 /\ own' = [own EXCEPT ![ev.t] = nb + 1] /\ w' = [w EXCEPT ![ev.t] = <<>>] /\ cnt' = [cnt EXCEPT ![ev.t] = 0]
             [] ev.op \in {"remove", "respawn"} -> own' = [own EXCEPT ![ev.t] = 0] /\ w' = [w EXCEPT ![ev.t] = <<>>] /\ cnt' = [cnt EXCEPT ![ev.t] = 0] /\ UNCHANGED nb
             [] ev.op = "peek" -> Same
             [] ev.op = "feed" -> Push(ev.a, 0)
             [] ev.op = "and" -> Push(V(ev.a) * V(ev.b), 1)
             [] ev.op = "xor" -> Push((V(ev.a) + V(ev.b)) % 2, 0)
             [] ev.op = "not" -> Push(1 - V(ev.a), 0)
             [] ev.op = "open" -> ev.r = V(ev.a) /\ Same
             [] ev.op = "count" -> ev.r = cnt[ev.t] /\ Same
        /\ ev.seen = <<own'[1], own'[2], own'[3]>>
(* a program of whole operations: each result in parallel is the result alone *)
SameAsAlone == Is("same") /\ Len(ev.alone) = Len(ev.together) /\ (\A i \in 1..Len(ev.alone) : ev.alone[i] = ev.together[i]) /\ Same
Next == New \/ Step \/ SameAsAlone
=============================================================================
