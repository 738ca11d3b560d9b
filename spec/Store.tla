-------------------------------- MODULE Store --------------------------------
(* Memory and file channels as stores. Contents are sequences of runs        *)
(* <<a,n>>: bytes a..a+n-1 of everything ever written, in order.             *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
(* canonical form: no empty runs, adjacent runs merged *)
Add1(s, r) == IF r[2] = 0 THEN s
              ELSE IF s # <<>> /\ s[Len(s)][1] + s[Len(s)][2] = r[1] THEN [s EXCEPT ![Len(s)] = <<@[1], @[2] + r[2]>>]
              ELSE Append(s, r)
Canon(s) == FoldLeft(Add1, <<>>, s)
Size(s) == FoldLeft(LAMBDA z, r : z + r[2], 0, s)
(* bytes from..from+n-1 of contents s *)
Cut(s, from, n) == LET step(z, r) == LET lo == IF from > z[1] THEN from - z[1] ELSE 0
                                         hi == IF from + n < z[1] + r[2] THEN from + n - z[1] ELSE r[2]
                                     IN <<z[1] + r[2], IF lo < hi THEN Add1(z[2], <<r[1] + lo, hi - lo>>) ELSE z[2]>>
                   IN FoldLeft(step, <<0, <<>>>>, s)[2]
(* write w at position p *)
Write(s, p, w) == Canon(Cut(s, 0, p) \o w \o Cut(s, p + Size(w), Size(s)))
(* the byte the harness writes at position k of its stream, and equality of contents *)
Byte(k) == (k * 7 + (k \div 251) * 31 + (k \div 4001) * 17) % 251
Expand(s) == FoldLeft(LAMBDA z, r : z \o [i \in 1..r[2] |-> IF r[1] < 0 THEN -1 ELSE Byte(r[1] + i - 1)], <<>>, s)
Same(s, t) == s = t \/ (Size(s) = Size(t) /\ Expand(s) = Expand(t))
VARIABLES mem, mpos, mctr, hasm,   \* memory channel: contents, read position, bytes sent
          file, fpos, fctr         \* file contents, position of the open file channel, bytes sent
svars == <<mem,mpos,mctr,hasm,file,fpos,fctr>>
SInit == mem = <<>> /\ mpos = 0 /\ mctr = 0 /\ hasm = FALSE /\ file = <<>> /\ fpos = 0 /\ fctr = 0
SReset == mem' = <<>> /\ mpos' = 0 /\ mctr' = 0 /\ hasm' = FALSE /\ file' = <<>> /\ fpos' = 0 /\ fctr' = 0
UF == UNCHANGED <<file,fpos,fctr>>
UM == UNCHANGED <<mem,mpos,mctr,hasm>>
MNew == mem' = <<>> /\ mpos' = 0 /\ mctr' = 0 /\ hasm' = TRUE /\ UF
MSend(a, n, c) == mctr + n = c /\ mem' = Add1(mem, <<a,n>>) /\ mctr' = mctr + n /\ UNCHANGED <<mpos,hasm>> /\ UF
Fits(n) == mpos + n <= Size(mem)
MRecv(n, un, runs) == IF Fits(n) THEN Same(Cut(mem, mpos, n), runs) /\ mpos' = mpos + n /\ UNCHANGED <<mem,mctr,hasm>> /\ UF
                      ELSE un /\ UNCHANGED svars
MClear == mem' = <<>> /\ mpos' = 0 /\ UNCHANGED <<mctr,hasm>> /\ UF
MLoad(n) == mem' = Cut(file, fpos, n) /\ mpos' = 0 /\ fpos' = fpos + n /\ UNCHANGED <<mctr,hasm,file,fctr>>
FNew(rd) == file' = (IF rd THEN file ELSE <<>>) /\ fpos' = 0 /\ fctr' = 0 /\ UM
FSend(a, n, c) == fctr + n = c /\ file' = Write(file, fpos, IF n = 0 THEN <<>> ELSE <<<<a,n>>>>) /\ fpos' = fpos + n /\ fctr' = fctr + n /\ UM
FRecv(n, runs) == Same(Cut(file, fpos, n), runs) /\ fpos + n <= Size(file) /\ fpos' = fpos + n /\ UNCHANGED <<file,fctr>> /\ UM
FRewind == fpos' = 0 /\ UNCHANGED <<file,fctr>> /\ UM
FLen(k) == k = Size(file) /\ UNCHANGED svars
=============================================================================
