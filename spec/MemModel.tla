------------------------------ MODULE MemModel ------------------------------
(* MemIO's growing buffer, against the store it implements (Store, memory    *)
(* part). Contents are positions of the stream written; garbage is -1.       *)
(* Variants that must be rejected: "nocopy" (growth does not copy), "keep"   *)
(* (clear keeps the read position), "nocap" (growth forgets the capacity).   *)
EXTENDS Integers, Sequences
CONSTANTS MAX, Variant
VARIABLES buf, size, rpos, cap, sent, base, want, got
vars == <<buf,size,rpos,cap,sent,base,want,got>>
(* sent: bytes written ever; base: stream position of the first byte since the last clear; want: bytes read since then *)
Init == \E c \in 1..2 : buf = [i \in 1..c |-> -1] /\ cap = c /\ size = 0 /\ rpos = 0 /\ sent = 0 /\ base = 0 /\ want = 0 /\ got = TRUE
Send(n) == sent + n <= MAX /\ sent' = sent + n /\ size' = size + n /\ UNCHANGED <<rpos,base,want>> /\
   LET grow == size + n >= cap  nc == IF grow THEN 2*(cap+n) ELSE cap
       b == IF grow THEN [i \in 1..nc |-> IF i <= size /\ Variant # "nocopy" THEN buf[i] ELSE -1] ELSE buf
   IN /\ cap' = (IF Variant = "nocap" /\ grow THEN nc + 2 ELSE nc)
      /\ buf' = [i \in DOMAIN b |-> IF i > size /\ i <= size + n THEN sent + i - size - 1 ELSE b[i]]
      /\ got' = (got /\ size + n <= Len(b))
Recv(n) == IF rpos + n <= size
   THEN /\ got' = (got /\ rpos + n <= Len(buf) /\ \A i \in 1..n : buf[rpos+i] = base + want + i - 1)
        /\ rpos' = rpos + n /\ want' = want + n /\ UNCHANGED <<buf,size,cap,sent,base>>
   ELSE got' = (got /\ base + want + n > sent) /\ UNCHANGED <<buf,size,rpos,cap,sent,base,want>>
Clear == size' = 0 /\ rpos' = (IF Variant = "keep" THEN rpos ELSE 0) /\ base' = sent /\ want' = 0 /\ UNCHANGED <<buf,cap,sent,got>>
Next == (\E n \in 0..3 : Send(n) \/ Recv(n)) \/ Clear
Inv == got
=============================================================================
