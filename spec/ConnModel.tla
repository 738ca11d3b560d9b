------------------------------ MODULE ConnModel ------------------------------
(* How the endpoints get there: the server binds, listens, accepts one       *)
(* connection and closes the listener, port after port; the client opens a   *)
(* socket, connects, and on refusal closes it and tries again. The kernel    *)
(* chooses the client's source port: it can be the destination port itself,  *)
(* and then the client connects to itself (at most SELF times). A bind fails *)
(* if a socket that does not allow reuse holds the port. Two sessions in a   *)
(* row use the same ports.                                                   *)
(* Variants (must be rejected): "self" - the client takes a connection to    *)
(* itself for the server; "noreuse" - its sockets hold the port exclusively; *)
(* "leak" - a refused socket is not closed; "noretry" - the client gives up; *)
(* "keeplisten" - the listener stays; "cross" - the client takes the ports   *)
(* in the other order.                                                       *)
EXTENDS Integers, Sequences
CONSTANTS NP, SELF, ROUNDS, Variant
VARIABLES spc, si, lst, backlog, sc, cpc, ci, cc, cfd, sfd, selfs, round, binderr
vars == <<spc,si,lst,backlog,sc,cpc,ci,cc,cfd,sfd,selfs,round,binderr>>
Start == spc = "bind" /\ si = 1 /\ lst = {} /\ backlog = 0 /\ sc = <<>> /\ cpc = "socket" /\ ci = 1 /\ cc = <<>> /\ cfd = 0 /\ sfd = 0
Init == Start /\ selfs = 0 /\ round = 1 /\ binderr = FALSE
Dest == IF Variant = "cross" THEN NP + 1 - ci ELSE ci
(* the client's socket holds the destination port exclusively *)
Held(p) == Variant = "noreuse" /\ cpc = "selfup" /\ Dest = p
SBind == spc = "bind" /\ (IF Held(si) THEN binderr' = TRUE /\ spc' = "dead" /\ UNCHANGED <<lst,sfd>>
                          ELSE spc' = "accept" /\ lst' = lst \union {si} /\ sfd' = sfd + 1 /\ UNCHANGED binderr)
         /\ backlog' = 0 /\ UNCHANGED <<si,sc,cpc,ci,cc,cfd,selfs,round>>
SAccept == spc = "accept" /\ backlog # 0 /\ sc' = Append(sc, backlog) /\ backlog' = 0 /\ sfd' = sfd + 1 /\ spc' = "unlisten"
           /\ UNCHANGED <<si,lst,cpc,ci,cc,cfd,selfs,round,binderr>>
SUnlisten == spc = "unlisten" /\ (IF Variant = "keeplisten" THEN UNCHANGED <<lst,sfd>> ELSE lst' = lst \ {si} /\ sfd' = sfd - 1)
             /\ (IF si = NP THEN spc' = "up" /\ UNCHANGED si ELSE spc' = "bind" /\ si' = si + 1)
             /\ UNCHANGED <<backlog,sc,cpc,ci,cc,cfd,selfs,round,binderr>>
CSocket == cpc = "socket" /\ cfd' = cfd + 1 /\ cpc' = "connect" /\ UNCHANGED <<spc,si,lst,backlog,sc,ci,cc,sfd,selfs,round,binderr>>
Advance(peer) == cc' = Append(cc, peer) /\ (IF ci = NP THEN cpc' = "up" /\ UNCHANGED ci ELSE cpc' = "socket" /\ ci' = ci + 1)
CConnect == cpc = "connect" /\ Dest \in lst /\ backlog = 0 /\ spc = "accept" /\ backlog' = Dest /\ Advance("server") /\ UNCHANGED <<spc,si,lst,sc,cfd,sfd,selfs,round,binderr>>
CRefused == cpc = "connect" /\ Dest \notin lst /\ cpc' = "refused" /\ UNCHANGED <<spc,si,lst,backlog,sc,ci,cc,cfd,sfd,selfs,round,binderr>>
CSelf == cpc = "connect" /\ Dest \notin lst /\ selfs < SELF /\ selfs' = selfs + 1 /\ cpc' = "selfup" /\ UNCHANGED <<spc,si,lst,backlog,sc,ci,cc,cfd,sfd,round,binderr>>
CSelfSeen == cpc = "selfup" /\ (IF Variant = "self" THEN Advance("client") ELSE cpc' = "refused" /\ UNCHANGED <<ci,cc>>)
             /\ UNCHANGED <<spc,si,lst,backlog,sc,cfd,sfd,selfs,round,binderr>>
CClose == cpc = "refused" /\ cfd' = (IF Variant = "leak" THEN cfd ELSE cfd - 1) /\ cpc' = (IF Variant = "noretry" THEN "dead" ELSE "socket")
          /\ UNCHANGED <<spc,si,lst,backlog,sc,ci,cc,sfd,selfs,round,binderr>>
Again == spc = "up" /\ cpc = "up" /\ round < ROUNDS /\ round' = round + 1 /\ spc' = "bind" /\ si' = 1 /\ lst' = lst /\ backlog' = 0 /\ sc' = <<>>
         /\ cpc' = "socket" /\ ci' = 1 /\ cc' = <<>> /\ cfd' = cfd - NP /\ sfd' = sfd - NP /\ UNCHANGED <<selfs,binderr>>
Server == SBind \/ SAccept \/ SUnlisten
Client == CSocket \/ CConnect \/ CRefused \/ CSelfSeen \/ CClose
Next == Server \/ Client \/ CSelf \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ WF_vars(CSocket) /\ SF_vars(CConnect) /\ WF_vars(CRefused) /\ WF_vars(CSelfSeen) /\ WF_vars(CClose) /\ WF_vars(Again)
(* Conn!Up and Conn!Heard *)
Paired == /\ (cpc = "up" => cc = [i \in 1..NP |-> "server"]) /\ (spc = "up" => sc = [i \in 1..NP |-> i])
          /\ (cpc = "up" => spc # "bind" \/ si > 1)
NoFailure == ~binderr
(* Conn!Closed and Conn!EndSession *)
NoListener == spc = "up" => lst = {}
Balanced == (spc = "up" => sfd = NP) /\ (cpc = "up" => cfd = NP)
BothUp == spc = "up" /\ cpc = "up"
Finish == <>(BothUp /\ round = ROUNDS)
=============================================================================
