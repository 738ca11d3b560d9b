--------------------------- MODULE ThreadPoolModel --------------------------
(* The pool's algorithm at the level of its mutex and condition variable,    *)
(* with spurious wake-ups, an external producer per task of PT, tasks that   *)
(* submit children (Child), and destruction by the main thread once the      *)
(* producers are done or while a task still runs. Checked: it refines the    *)
(* abstract pool (ThreadPool), never deadlocks, and destruction terminates.  *)
(* Variants that must be rejected: "unlockedstop" sets the stop flag without *)
(* the mutex, "stopone" wakes one worker at destruction, "exitearly" leaves  *)
(* when stopped although tasks are queued, "nopred" trusts every wake-up,    *)
(* "lateaccept" accepts after the stop flag, "nojoin" does not join, "lifo"   *)
(* takes the newest task, "twolocks" reads and removes the head in two steps.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Variant, W, PT, Child     \* workers (set of ids), producer tasks, child tasks: parent |-> child
None == "none"
Kids == {Child[p] : p \in DOMAIN Child}
Tasks == PT \cup Kids
Threads == W \cup PT \cup {"main"}
VARIABLES mtx, tasks, stopf, pc, cur, waiting, called, done, accd, rejd, seen, wild
vars == <<mtx,tasks,stopf,pc,cur,waiting,called,done,accd,rejd,seen,wild>>
Same == UNCHANGED <<seen,wild>>
(* pc: workers  lock wait relock check run kid_lock kid_notify exit           *)
(*     producers idle lock notify done ; main idle lock notify join over      *)
Init == mtx = None /\ tasks = <<>> /\ stopf = FALSE /\ cur = [w \in W |-> None] /\ waiting = {}
        /\ pc = [t \in Threads |-> IF t \in W THEN "lock" ELSE "idle"] /\ called = {} /\ done = {} /\ accd = {} /\ rejd = {} /\ seen = {} /\ wild = FALSE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
(* worker *)
WLock(w) == pc[w] \in {"lock","relock"} /\ mtx = None /\ mtx' = w
            /\ Go(w, IF Variant = "nopred" /\ pc[w] = "relock" THEN "take" ELSE "check") /\ UNCHANGED <<tasks,stopf,cur,waiting,called,done,accd,rejd>>
(* the wait predicate is evaluated first, then the worker parks or goes on; both under the mutex *)
WCheck(w) == pc[w] = "check" /\ Go(w, IF stopf \/ tasks # <<>> THEN "take" ELSE "park") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd,rejd>>
WPark(w) == pc[w] = "park" /\ waiting' = waiting \cup {w} /\ mtx' = None /\ Go(w,"wait") /\ UNCHANGED <<tasks,cur,stopf,called,done,accd,rejd>>
Oldest == IF Variant = "lifo" THEN tasks[Len(tasks)] ELSE Head(tasks)
Others == IF Variant = "lifo" THEN SubSeq(tasks,1,Len(tasks)-1) ELSE Tail(tasks)
WTake(w) == pc[w] = "take" /\ UNCHANGED <<called,done,accd,rejd,stopf,waiting,seen>> /\
   IF stopf /\ (tasks = <<>> \/ Variant = "exitearly") THEN Go(w,"exit") /\ mtx' = None /\ UNCHANGED <<tasks,cur,wild>>
   ELSE IF tasks = <<>> THEN wild' = TRUE /\ UNCHANGED <<mtx,pc,tasks,cur>>         \* takes from an empty queue
   ELSE IF Variant = "twolocks" THEN cur' = [cur EXCEPT ![w] = Oldest] /\ mtx' = None /\ Go(w,"pop") /\ UNCHANGED <<tasks,wild>>
   ELSE cur' = [cur EXCEPT ![w] = Oldest] /\ tasks' = Others /\ mtx' = None /\ Go(w,"begin") /\ UNCHANGED wild
WPop(w) == pc[w] = "pop" /\ mtx = None /\ Go(w,"begin") /\ UNCHANGED <<mtx,stopf,cur,waiting,called,done,accd,rejd,seen>> /\
   IF tasks = <<>> THEN wild' = TRUE /\ UNCHANGED tasks ELSE tasks' = Tail(tasks) /\ UNCHANGED wild
WBegin(w) == pc[w] = "begin" /\ Go(w,"run") /\ seen' = seen \cup {w} /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd,rejd,wild>>
WSpurious(w) == pc[w] = "wait" /\ waiting' = waiting \ {w} /\ Go(w,"relock") /\ UNCHANGED <<mtx,tasks,stopf,cur,called,done,accd,rejd>>
WRun(w) == pc[w] = "run" /\ IF cur[w] \in DOMAIN Child
   THEN called' = called \cup {Child[cur[w]]} /\ Go(w,"kid_lock") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,done,accd,rejd>>
   ELSE done' = done \cup {cur[w]} /\ cur' = [cur EXCEPT ![w] = None] /\ Go(w,"lock") /\ UNCHANGED <<mtx,tasks,stopf,waiting,called,accd,rejd>>
WKidLock(w) == pc[w] = "kid_lock" /\ mtx = None /\
   IF stopf /\ Variant # "lateaccept" THEN rejd' = rejd \cup {Child[cur[w]]} /\ Go(w,"finish") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd>>
   ELSE tasks' = Append(tasks, Child[cur[w]]) /\ accd' = accd \cup {Child[cur[w]]} /\ Go(w,"kid_notify") /\ UNCHANGED <<mtx,stopf,cur,waiting,called,done,rejd>>
Wake(S) == waiting' = waiting \ S
NotifyOne(t, next) == IF waiting = {} THEN Go(t,next) /\ UNCHANGED waiting
   ELSE \E w \in waiting : waiting' = waiting \ {w} /\ pc' = [pc EXCEPT ![t] = next, ![w] = "relock"]
WKidNotify(w) == pc[w] = "kid_notify" /\ NotifyOne(w,"finish") /\ UNCHANGED <<mtx,tasks,stopf,cur,called,done,accd,rejd>>
WFinish(w) == pc[w] = "finish" /\ done' = done \cup {cur[w]} /\ cur' = [cur EXCEPT ![w] = None] /\ Go(w,"lock") /\ UNCHANGED <<mtx,tasks,stopf,waiting,called,accd,rejd>>
(* producer of task t *)
PCall(t) == t \in PT /\ pc[t] = "idle" /\ ~stopf /\ pc["main"] = "idle" /\ called' = called \cup {t} /\ Go(t,"lock") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,done,accd,rejd>>
PLock(t) == t \in PT /\ pc[t] = "lock" /\ mtx = None /\
   IF stopf /\ Variant # "lateaccept" THEN rejd' = rejd \cup {t} /\ Go(t,"done") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd>>
   ELSE tasks' = Append(tasks,t) /\ accd' = accd \cup {t} /\ Go(t,"notify") /\ UNCHANGED <<mtx,stopf,cur,waiting,called,done,rejd>>
PNotify(t) == t \in PT /\ pc[t] = "notify" /\ NotifyOne(t,"done") /\ UNCHANGED <<mtx,tasks,stopf,cur,called,done,accd,rejd>>
(* destruction *)
MStart == pc["main"] = "idle" /\ Go("main","lock") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd,rejd>>
MLock == pc["main"] = "lock" /\ (mtx = None \/ Variant = "unlockedstop") /\ stopf' = TRUE /\ Go("main","notify") /\ UNCHANGED <<mtx,tasks,cur,waiting,called,done,accd,rejd>>
MNotify == IF Variant = "stopone" THEN pc["main"] = "notify" /\ NotifyOne("main","join") /\ UNCHANGED <<mtx,tasks,stopf,cur,called,done,accd,rejd>> ELSE pc["main"] = "notify" /\ waiting' = {} /\ pc' = [t \in Threads |-> IF t \in waiting THEN "relock" ELSE IF t = "main" THEN "join" ELSE pc[t]]
   /\ UNCHANGED <<mtx,tasks,stopf,cur,called,done,accd,rejd>>
MJoin == pc["main"] = "join" /\ (Variant = "nojoin" \/ \A w \in W : pc[w] = "exit")
   /\ (\A t \in PT : pc[t] \in {"idle","done"})       \* clients: no call outlives the pool (a running task keeps it alive)
   /\ Go("main","over") /\ UNCHANGED <<mtx,tasks,stopf,cur,waiting,called,done,accd,rejd>>
Finished == pc["main"] = "over" /\ UNCHANGED vars
WStep(w) == ((WLock(w) \/ WCheck(w) \/ WPark(w) \/ WRun(w) \/ WKidLock(w) \/ WKidNotify(w) \/ WFinish(w)) /\ Same) \/ WTake(w) \/ WPop(w) \/ WBegin(w)
PStep(t) == (PCall(t) \/ PLock(t) \/ PNotify(t)) /\ Same
MStep == (MStart \/ MLock \/ MNotify \/ MJoin) /\ Same
Next == (\E w \in W : WStep(w) \/ (WSpurious(w) /\ Same)) \/ (\E t \in PT : PStep(t)) \/ MStep \/ Finished
(* locks are handed out fairly enough that a waiting thread eventually runs *)
Spec == Init /\ [][Next]_vars /\ (\A w \in W : SF_vars(WLock(w) /\ Same) /\ SF_vars(WPop(w)) /\ WF_vars(WStep(w))) /\ (\A w \in W : SF_vars(WKidLock(w) /\ Same))
             /\ (\A t \in PT : SF_vars(PLock(t) /\ Same) /\ WF_vars(PStep(t))) /\ WF_vars(MStep) /\ SF_vars(MLock /\ Same)
(* a task runs on at most one worker, once, and only if accepted *)
Sq(s) == {s[i] : i \in 1..Len(s)}
OnceOnly == /\ Len(tasks) = Cardinality(Sq(tasks))
            /\ \A w \in W : cur[w] # None => cur[w] \notin done /\ cur[w] \notin Sq(tasks) /\ \A v \in W : v # w => cur[v] # cur[w]
            /\ \A t \in Sq(tasks) : t \notin done
            /\ done \subseteq accd /\ accd \cap rejd = {}
AllRun == pc["main"] = "over" => done = accd
NoLostTask == \A t \in accd : t \in done \/ t \in Sq(tasks) \/ \E w \in W : cur[w] = t
Terminates == <>(pc["main"] = "over")
NeverWild == ~wild
(* refinement of the abstract pool *)
InPc(S) == {w \in W : pc[w] \in S /\ cur[w] # None}
A == INSTANCE ThreadPool WITH n <- Cardinality(W), inv <- called \ (accd \cup rejd), acc <- accd, queue <- tasks,
     taken <- {cur[w] : w \in InPc({"begin"})}, running <- {<<cur[w], w>> : w \in InPc({"run","kid_lock","kid_notify","finish"})}, fin <- done,
     ws <- seen, stop <- IF pc["main"] = "over" THEN "over" ELSE IF stopf THEN "set" ELSE IF pc["main"] = "lock" THEN "begun" ELSE "no"
AStep == A!Hidden \/ A!DBegin \/ A!DEnd
         \/ (\E t \in Tasks : A!Invoke(t) \/ A!Reject(t) \/ (\E w \in W : A!Begin(t,w) \/ A!End(t,w)))
Refines == [][AStep]_(A!pvars)
=============================================================================
