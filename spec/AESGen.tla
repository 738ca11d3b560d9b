------------------------------- MODULE AESGen -------------------------------
(* Life histories of keyed permutation objects and free AES calls.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
H(r) == Len(hist) < D /\ hist' = Append(hist, r) /\ UNCHANGED done
Init == (\E k \in 0..3 : hist = <<[op|->"new", n|->k]>>) /\ done = FALSE
Next == \/ H([op|->"perm", n|->R((0..17) \cup {23,24,25,31,32,33,39,40,41})])
        \/ H([op|->"perm", n|->R(1..9)])
        \/ H([op|->"rekey", n|->0])
        \/ H([op|->"new", n|->R(0..3)])
        \/ H([op|->"enc", n|->R((0..12) \cup {16,17,33})])
        \/ H([op|->"encT", n|->R({1,2,3,4,5,7,8,9,16})])
        \/ H([op|->"dec", n|->R((0..9) \cup {16,17})])
        \/ H([op|->"para", n|->R({0, 1, 2, 8, 9, 16, 24, 25, 27, 56, 57})])
        \/ H([op|->"para", n|->R(0..27)])
        \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson(hist))
=============================================================================
