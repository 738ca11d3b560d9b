----------------------------- MODULE ThreadPool -----------------------------
(* What a user of the pool can rely on, as a transition system over visible  *)
(* events (invocation, acceptance reported, rejection, start and end of a    *)
(* task, begin and end of destruction) and hidden steps (a call takes        *)
(* effect, an idle worker takes the oldest task, destruction takes effect).  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n,         \* requested workers
          inv,       \* tasks whose submission is in progress, not yet effective
          acc,       \* effective submissions
          queue,     \* accepted, not yet taken (oldest first)
          taken,     \* taken, not yet started
          running,   \* set of <<task, thread>>
          fin,       \* finished tasks
          ws,        \* threads seen executing tasks
          stop       \* "no" | "begun" | "set" | "over"
pvars == <<n,inv,acc,queue,taken,running,fin,ws,stop>>
New(k) == n' = k /\ inv' = {} /\ acc' = {} /\ queue' = <<>> /\ taken' = {} /\ running' = {} /\ fin' = {} /\ ws' = {} /\ stop' = "no"
Start0 == n = 0 /\ inv = {} /\ acc = {} /\ queue = <<>> /\ taken = {} /\ running = {} /\ fin = {} /\ ws = {} /\ stop = "over"
(* visible *)
Invoke(t) == t \notin inv \cup acc /\ stop # "over" /\ inv' = inv \cup {t} /\ UNCHANGED <<n,acc,queue,taken,running,fin,ws,stop>>
Return(t) == t \in acc /\ UNCHANGED pvars
Reject(t) == t \in inv /\ stop = "set" /\ inv' = inv \ {t} /\ UNCHANGED <<n,acc,queue,taken,running,fin,ws,stop>>
Begin(t,w) == t \in taken /\ (\A r \in running : r[2] # w) /\ Cardinality(ws \cup {w}) <= n
   /\ taken' = taken \ {t} /\ running' = running \cup {<<t,w>>} /\ ws' = ws \cup {w} /\ UNCHANGED <<n,inv,acc,queue,fin,stop>>
End(t,w) == <<t,w>> \in running /\ running' = running \ {<<t,w>>} /\ fin' = fin \cup {t} /\ UNCHANGED <<n,inv,acc,queue,taken,ws,stop>>
DBegin == stop = "no" /\ stop' = "begun" /\ UNCHANGED <<n,inv,acc,queue,taken,running,fin,ws>>
DEnd == stop = "set" /\ queue = <<>> /\ taken = {} /\ running = {} /\ fin = acc /\ stop' = "over" /\ UNCHANGED <<n,inv,acc,queue,taken,running,fin,ws>>
Ready(t) == t \in fin /\ UNCHANGED pvars
(* hidden *)
Effect(t) == t \in inv /\ stop \in {"no","begun"} /\ inv' = inv \ {t} /\ acc' = acc \cup {t} /\ queue' = Append(queue, t)
   /\ UNCHANGED <<n,taken,running,fin,ws,stop>>
Take == queue # <<>> /\ Cardinality(taken) + Cardinality(running) < n
   /\ taken' = taken \cup {Head(queue)} /\ queue' = Tail(queue) /\ UNCHANGED <<n,inv,acc,running,fin,ws,stop>>
SetStop == stop = "begun" /\ stop' = "set" /\ UNCHANGED <<n,inv,acc,queue,taken,running,fin,ws>>
Hidden == (\E t \in inv : Effect(t)) \/ Take \/ SetStop
=============================================================================
