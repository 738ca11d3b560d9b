------------------------------ MODULE HashGen -------------------------------
(* Histories over two hash objects. Big = 1: a few inputs around the size of *)
(* the library's internal buffer; Big = 0: many small ones around the block  *)
(* size of the hash.                                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D, Big, BUF
VARIABLES hist, left, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Sm == (0..20) \cup {31,32,33,47,48,55,56,57,63,64,65,100,119,120,127,128,129,200}
Bg == {BUF-1, BUF, BUF+1, BUF-100, BUF \div 2, BUF+77, 2*BUF}
P(o,n) == n <= left /\ left' = left - n /\ hist' = Append(hist, [op|->"put", o|->o, n|->n])
H(r) == hist' = Append(hist, r) /\ UNCHANGED left
G == Len(hist) < D /\ UNCHANGED done
Init == hist = <<[op|->"new",o|->1], [op|->"new",o|->2]>> /\ left = 4*BUF + 300 /\ done = FALSE
Next == \/ G /\ P(R(1..2), R(Sm))
        \/ G /\ P(1, R(Sm))
        \/ G /\ Big = 1 /\ P(R(1..2), R(Bg))
        \/ G /\ Big = 1 /\ P(1, R({BUF-1, BUF, 1, 5, BUF \div 2}))
        \/ G /\ Big = 1 /\ \E n \in {R({1,2,3,8,511,512})} : 16*n <= left /\ left' = left - 16*n /\ hist' = Append(hist, [op|->"blk", o|->1, n|->n])
        \/ G /\ Big = 0 /\ H([op|->"blk", o|->R(1..2), n|->R(1..9)])
        \/ G /\ H([op|->"digest", o|->R(1..2), n|->R(0..1)])
        \/ G /\ R(1..3) = 1 /\ H([op|->"reset", o|->R(1..2)])
        \/ G /\ Big = 0 /\ H([op|->R({"once","block","kdf"}), n|->R(Sm)])
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist,left>>
              /\ PrintT("SCN " \o ToJson(hist \o <<[op|->"digest",o|->1,n|->0],[op|->"digest",o|->2,n|->0]>>))
=============================================================================
