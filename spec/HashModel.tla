----------------------------- MODULE HashModel ------------------------------
(* Design model of the buffered hash object: a digest context that absorbs   *)
(* chunks, in front of it a buffer of BUF bytes. Every interleaving of       *)
(* inputs of sizes 0..MAXP, digests and resets; bytes are numbered so that   *)
(* any loss, duplication or reordering shows.                                *)
EXTENDS Integers, Sequences
CONSTANTS BUF, MAXP, MAXL
VARIABLES ctx, buf, msg, out
vars == <<ctx,buf,msg,out>>
Init == ctx = <<>> /\ buf = <<>> /\ msg = <<>> /\ out = <<<<>>,<<>>>>
Data(n) == [i \in 1..n |-> Len(msg) + i]
Put == \E n \in 0..MAXP :
   /\ Len(msg) + n <= MAXL
   /\ msg' = msg \o Data(n) /\ UNCHANGED out
   /\ IF n >= BUF THEN ctx' = ctx \o buf \o Data(n) /\ buf' = <<>>
      ELSE IF Len(buf) + n < BUF THEN buf' = buf \o Data(n) /\ UNCHANGED ctx
      ELSE ctx' = ctx \o buf /\ buf' = Data(n)
Dig == out' = <<ctx \o buf, msg>> /\ ctx' = <<>> /\ buf' = <<>> /\ msg' = <<>>
Reset == ctx' = <<>> /\ buf' = <<>> /\ msg' = <<>> /\ UNCHANGED out
Next == Put \/ Dig \/ Reset
Concat == out[1] = out[2]
Refines == ctx \o buf = msg
Bounded == Len(buf) <= BUF
=============================================================================
