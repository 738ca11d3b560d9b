------------------------------ MODULE IntTrace ------------------------------
(* Observed integer operations against IntSem.                                *)
EXTENDS TraceBase, Bitwise, Strict
VARIABLE l
I == INSTANCE IntSem
N8(b) == I!N!FromBytesLE(b)
ev == Trace[l]
Init == l = 1
Is(e) == l <= N /\ ev.e = e /\ l' = l + 1
Bt(X, i) == I!N!BitAt(X, i)
Small == /\ Is("small") /\ ev.kept /\ I!WidthOk(ev.op, ev.w, ev.rw)
         /\ (\A k \in 1..Len(ev.xs) : ev.rs[k] = I!SmallOp(ev.op, ev.xs[k], ev.ys[k], ev.w))
Wide == /\ Is("wide") /\ ev.kept /\ I!WidthOk(ev.op, ev.w, ev.rw)
        /\ N8(ev.r) = S2(LAMBDA X, Y : I!WideOp(ev.op, X, Y, ev.w), N8(ev.x), N8(ev.y))
Sel == /\ Is("sel") /\ ev.kept /\ ev.rw = ev.w
       /\ CASE ev.op = "select" -> ev.r = (IF ev.s = 1 THEN ev.y ELSE ev.x)
            [] ev.op = "if" -> ev.r = (IF ev.s = 1 THEN ev.x ELSE ev.y)
            [] OTHER -> ev.r = (IF ev.s = 1 THEN ev.y ELSE ev.x) /\ ev.r2 = (IF ev.s = 1 THEN ev.x ELSE ev.y)
ShiftOk(X, R, k) == \A i \in 0..(ev.w - 1) :
   Bt(R, i) = (IF ev.op = "shl" THEN (IF i >= k THEN Bt(X, i - k) ELSE 0) ELSE (IF i + k < ev.w THEN Bt(X, i + k) ELSE 0))
Shift == Is("shift") /\ ev.kept /\ ev.rw = ev.w /\ (\E X \in {N8(ev.x)}, R \in {N8(ev.r)} : ShiftOk(X, R, ev.k))
(* bits of a secret amount that count: those needed for the width, never its top bit *)
CeilLog2(n) == CHOOSE k \in 0..20 : 2^k >= n /\ (k = 0 \/ 2^(k-1) < n)
Amount(Y) == LET b == I!N!MinI(CeilLog2(ev.w), ev.m - 1) IN
   Fold(LAMBDA acc, i : acc + Bt(Y, i - 1) * 2^(i - 1), 0, [i \in 1..b |-> i])
ShiftBy == Is("shiftby") /\ ev.kept /\ ev.rw = ev.w /\ (\E X \in {N8(ev.x)}, R \in {N8(ev.r)}, k \in {Amount(N8(ev.y))} : ShiftOk(X, R, k))
ModExp == /\ Is("modexp") /\ ev.kept /\ ev.rw = ev.w
          /\ N8(ev.r) = S3(LAMBDA b, p, q : I!ModExp(b, p, ev.pw, q), N8(ev.b), N8(ev.p), N8(ev.q))
ModExps == Is("modexps") /\ ev.kept /\ (\A k \in 0..(Len(ev.q) \div 4 - 1) : ev.q[4*k+4] = I!PowMod(ev.q[4*k+1], ev.q[4*k+2], ev.q[4*k+3]))
(* construction: bit i of a machine integer, sign-extended above 64 *)
FromInt == Is("int") /\ ev.rw = ev.w /\ (\E V \in {N8(ev.v)}, R \in {N8(ev.r)} :
         \A i \in 0..(ev.w - 1) : Bt(R, i) = Bt(V, IF i < 64 THEN i ELSE 63))
Mem == Is("mem") /\ ev.rw = ev.w /\ ev.r = ev.x
FormBits(X, n) == [i \in 1..n |-> Bt(X, i - 1)]
Form == Is("form") /\ (\E X \in {N8(ev.x)} :
   CASE ev.form \in {"string", "bools"} -> ev.r = FormBits(X, ev.w)
     [] ev.form \in {"u32", "i32"} -> N8(ev.r) = I!N!ModPow2(X, 32)
     [] OTHER -> N8(ev.r) = I!N!ModPow2(X, 64))
Resize == /\ Is("resize") /\ ev.kept /\ ev.ref /\ ev.rw = ev.nw
          /\ (\E X \in {N8(ev.x)}, R \in {N8(ev.r)} :
               \A i \in 0..(ev.nw - 1) : Bt(R, i) = (IF i < ev.w THEN Bt(X, i) ELSE IF ev.sg THEN Bt(X, ev.w - 1) ELSE 0))
Index == /\ Is("index") /\ (\E X \in {N8(ev.x)}, R \in {N8(ev.r)}, k \in {I!N!MinI(ev.i, ev.w - 1)} :
            /\ ev.c = Bt(X, k) /\ ev.m = Bt(X, k)
            /\ \A i \in 0..(ev.w - 1) : Bt(R, i) = (IF i = k THEN 1 - Bt(X, i) ELSE Bt(X, i)))
Next == Small \/ Wide \/ Sel \/ Shift \/ ShiftBy \/ ModExp \/ ModExps \/ FromInt \/ Mem \/ Form \/ Resize \/ Index
=============================================================================
