-------------------------------- MODULE Hash --------------------------------
(* An incremental hash object: its abstract state is the message absorbed    *)
(* since construction, digest or reset. Kept in streaming form (chaining     *)
(* value, bytes not yet compressed, length) so that traces stay cheap.       *)
EXTENDS SHA2
Fresh == [h |-> H256, tail |-> <<>>, len |-> 0]
Whole(n) == n - (n % 64)
AbsorbM(st, m, n) == [h |-> BlocksUpTo(st.h, m, 0, Whole(Len(m))), tail |-> SubSeq(m, Whole(Len(m))+1, Len(m)), len |-> st.len + n]
Absorb(st, data) == S3(AbsorbM, st, st.tail \o data, Len(data))
FinalM(st) == st.tail \o <<128>> \o [i \in 1..((119 - (st.len % 64)) % 64) |-> 0] \o LenF(st.len)
Digest(st) == S1(Flat8, S2(LAMBDA h, p : Blocks256(h, p, 0), st.h, FinalM(st)))
=============================================================================
