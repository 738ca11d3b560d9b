-------------------------------- MODULE Trunc --------------------------------
(* What a sequence of receives may do on a stream of `avail' bytes.          *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_,_)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i-1)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
(* number of leading requests satisfied by n bytes *)
Served(reqs, n) == MaxS({i \in 0..Len(reqs) : \A j \in 0..i : SumTo(reqs, j) <= n})
Failed(e) == ~e.hang /\ e.sig = 0 /\ e.code > 0 /\ e.said
(* channels that end the process: all satisfiable receives return the right data, the first other one fails *)
EndsProcess(e, lo, hi) == LET d == Len(e.res) IN
   /\ (\A i \in 1..d : e.res[i] = 1)
   /\ d >= lo /\ d <= hi
   /\ IF d = Len(e.reqs) THEN ~e.hang /\ e.sig = 0 /\ e.code = 0 ELSE Failed(e)
(* the memory channel: a receive that does not fit changes nothing and the next ones go on from there *)
RECURSIVE MemRes(_,_,_,_)
MemRes(reqs, i, posn, avail) == IF i > Len(reqs) THEN <<>>
   ELSE IF posn + reqs[i] <= avail THEN <<1>> \o MemRes(reqs, i+1, posn + reqs[i], avail)
   ELSE <<-1>> \o MemRes(reqs, i+1, posn, avail)
(* (typed receives of several pieces may stop in the middle, so only raw and block requests are used there) *)
MemOk(e, avail) == ~e.hang /\ e.sig = 0 /\ e.code = 0 /\ e.res = MemRes(e.reqs, 1, 0, avail)
              /\ ((\E i \in 1..Len(e.res) : e.res[i] = -1) => e.said)
TruncOk(e) ==
   CASE e.kind \in {"net","file"} -> EndsProcess(e, Served(e.reqs, e.avail), Served(e.reqs, e.avail))
     [] e.kind = "hs" -> \* whole chunks on the wire must be delivered; nothing that was not sent may be
          LET n == IF e.avail < e.len THEN e.avail ELSE e.len IN
          EndsProcess(e, Served(e.reqs, LET f == (e.avail \div e.ch) * e.ch IN IF f < e.len THEN f ELSE e.len), Served(e.reqs, n))
     [] e.kind = "mem" -> MemOk(e, e.avail)
     [] e.kind = "load" -> IF e.avail < e.len THEN e.res = <<>> /\ Failed(e) ELSE MemOk(e, e.len)
=============================================================================
