----------------------------- MODULE ThreadModel ----------------------------
(* Backends selected by a pointer that every library call dereferences. Each  *)
(* thread installs backends of its own, feeds values, computes and opens; the *)
(* value it expects is what the same program computes alone. Variant "local"  *)
(* keeps one pointer per thread, "shared" a single one, "half" one per thread *)
(* for computing but a single one for opening.                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS T, MaxW, MaxB, Variant
VARIABLES circ, prot, objs, own, wires, bad
vars == <<circ, prot, objs, own, wires, bad>>
Thr == 1..T
Init == /\ circ = [t \in Thr |-> 0] /\ prot = [t \in Thr |-> 0] /\ objs = <<>> /\ own = [t \in Thr |-> 0]
        /\ wires = [t \in Thr |-> <<>>] /\ bad = FALSE
Set(p, t, b, sh) == IF sh THEN [u \in Thr |-> b] ELSE [p EXCEPT ![t] = b]
Sh1 == Variant = "shared"
Sh2 == Variant \in {"shared", "half"}
Install(t) == /\ Len(objs) < MaxB /\ own[t] = 0
              /\ objs' = Append(objs, <<>>) /\ own' = [own EXCEPT ![t] = Len(objs) + 1]
              /\ circ' = Set(circ, t, Len(objs) + 1, Sh1) /\ prot' = Set(prot, t, Len(objs) + 1, Sh2)
              /\ wires' = [wires EXCEPT ![t] = <<>>] /\ UNCHANGED bad
Remove(t) == /\ own[t] # 0 /\ own' = [own EXCEPT ![t] = 0] /\ circ' = Set(circ, t, 0, Sh1) /\ prot' = Set(prot, t, 0, Sh2)
             /\ wires' = [wires EXCEPT ![t] = <<>>] /\ UNCHANGED <<objs, bad>>
(* a call on backend b; a missing backend or wire is a failure of the program *)
Get(b, i) == IF b # 0 /\ i <= Len(objs[b]) THEN objs[b][i] ELSE 2
Put(b, t, v, e) == /\ bad' = (bad \/ b = 0)
                   /\ objs' = (IF b = 0 THEN objs ELSE [objs EXCEPT ![b] = Append(@, v)])
                   /\ wires' = [wires EXCEPT ![t] = Append(@, [ix |-> IF b = 0 THEN 0 ELSE Len(objs[b]) + 1, v |-> e])]
                   /\ UNCHANGED <<circ, prot, own>>
Feed(t, v) == own[t] # 0 /\ Len(wires[t]) < MaxW /\ Put(prot[t], t, v, v)
Xor(t, i, j) == /\ own[t] # 0 /\ Len(wires[t]) < MaxW
                /\ Put(circ[t], t, (Get(circ[t], wires[t][i].ix) + Get(circ[t], wires[t][j].ix)) % 2, (wires[t][i].v + wires[t][j].v) % 2)
Open(t, i) == /\ own[t] # 0 /\ bad' = (bad \/ Get(prot[t], wires[t][i].ix) # wires[t][i].v) /\ UNCHANGED <<circ, prot, objs, own, wires>>
Next == \E t \in Thr : \/ Install(t) \/ Remove(t) \/ (\E v \in {0, 1} : Feed(t, v))
                       \/ (\E i \in 1..Len(wires[t]) : Open(t, i) \/ (\E j \in 1..Len(wires[t]) : Xor(t, i, j)))
Alone == ~bad
OwnBackend == \A t \in Thr : circ[t] = own[t] /\ prot[t] = own[t]
=============================================================================
