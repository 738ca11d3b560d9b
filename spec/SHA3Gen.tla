------------------------------- MODULE SHA3Gen ------------------------------
(* Sessions of hashes on one calculator: several calls, inputs in several    *)
(* parts, total lengths concentrated around byte and rate boundaries.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, done
R(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Edge == {0, 1, 7, 8, 9, 1063, 1064, 1072, 1079, 1080, 1081, 1082, 1085, 1086, 1087, 1088, 1089, 1095, 1096, 1104, 2168, 2169, 2175, 2176, 2177, 2184, 3264}
Tot == IF R(1..3) = 1 THEN R(0..2300) ELSE R(Edge)
RECURSIVE Cut(_, _)
Cut(n, k) == IF k = 1 THEN <<n>> ELSE LET a == R(0..n) IN <<a>> \o Cut(n - a, k - 1)
PlainLens == (0..20) \cup {67, 68, 69, 134, 135, 136, 137, 271, 272, 273, 400, 1000}
Op(a) == [api |-> a, sizes |-> IF a = "one" THEN <<Tot>> ELSE IF a = "plain" THEN <<R(PlainLens)>> ELSE Cut(Tot, R({1, 1, 2, 3, 5})),
          pat |-> R({0, 1, 2, 2, 2}), pub |-> R(0..2), osz |-> R({1, 8, 256, 300}), oint |-> R(0..1)]
Init == hist = <<>> /\ done = FALSE
Next == \/ Len(hist) < D /\ (\E a \in {"one", "blocks", "ints", "plain"} : hist' = Append(hist, Op(a))) /\ UNCHANGED done
        \/ Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ PrintT("SCN " \o ToJson([ops |-> hist, kind |-> R({0, 0, 1, 2})]))
=============================================================================
