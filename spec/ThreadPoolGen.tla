----------------------------- MODULE ThreadPoolGen ---------------------------
(* Client programs of the pool: a main thread that submits tasks of several  *)
(* kinds, starts producers, waits for results and then destroys the pool;    *)
(* guarded programs let producers race with destruction while a running      *)
(* task keeps the pool alive.                                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done, n, guarded
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Kinds == {0,1,2,3,4,6}
Sub(k) == [op |-> "sub", k |-> k, c |-> 0]
Op(o) == [op |-> o, k |-> 0, c |-> 0]
Init == /\ n \in 1..4 /\ guarded \in {0,1} /\ done = FALSE
        /\ hist = IF guarded = 1 THEN <<Sub(5)>> ELSE <<>>
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED <<done,n,guarded>>
Next == \/ H(Sub(R(Kinds)))
        \/ H(Sub(3))
        \/ H([op |-> "prod", k |-> R(Kinds), c |-> R(1..2)])
        \/ ((guarded = 0 \/ n >= 2) /\ H(Op("get")))
        \/ H(Op("yield"))
        \/ (guarded = 0 /\ H(Op("quiet")))
        \/ (Len(hist) >= R(1..D) /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,n,guarded>>
            /\ PrintT("SCN " \o ToJson([n |-> n, guarded |-> guarded, ops |-> hist])))
=============================================================================
