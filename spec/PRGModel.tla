------------------------------ MODULE PRGModel ------------------------------
(* Design check of PRG: with an uninterpreted stream, no stream block is    *)
(* handed out twice within one seeding, draws are consecutive, and nothing  *)
(* of an earlier seeding survives a reseed.                                 *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Seeds, MaxPos
VARIABLES seed, pos, words, epoch, given, last
S(s,p) == <<<<s,p,1>>,<<s,p,2>>>>
A(p,n) == p+n
P == INSTANCE PRG WITH Stream <- S, Adv <- A, Origin <- 0, BS <- 2, WB <- 2, WS <- 1
mvars == <<seed,pos,words,epoch,given,last>>
(* the seeding a block belongs to is <<epoch,seed>> *)
E == <<epoch,seed>>
Init == seed \in Seeds /\ pos = 0 /\ words = <<>> /\ epoch = 0 /\ given = {} /\ last = <<>>
Hand(n) == given' = given \cup {<<E, pos + i>> : i \in 0..(n-1)}
Fresh(n) == \A i \in 0..(n-1) : <<E, pos+i>> \notin given
Bl == \E n \in 0..2 : pos + n <= MaxPos /\ P!DrawBlocks(n) /\ Assert(Fresh(n), "reuse") /\ Hand(n)
        /\ last' = P!Take(n) /\ UNCHANGED epoch
By == \E n \in 0..4 : pos + P!Need(n) <= MaxPos /\ P!DrawBytes(n) /\ Assert(Fresh(P!Need(n)), "reuse")
        /\ Hand(P!Need(n)) /\ last' = P!Take(P!Need(n)) /\ UNCHANGED epoch
Wo == pos + 2 <= MaxPos /\ P!DrawWord /\ last' = <<P!WordOut>> /\ UNCHANGED epoch
        /\ IF words = <<>> THEN Assert(Fresh(2), "reuse") /\ Hand(2) ELSE UNCHANGED given
Re == \E s \in Seeds : epoch < 2 /\ P!Reseed(s) /\ epoch' = epoch + 1 /\ UNCHANGED given /\ last' = <<>>
Next == Bl \/ By \/ Wo \/ Re
NoLeftover == \A k \in 1..Len(words) : words[k][1][1] = seed
Contiguous == \A g \in given : g[1] = E => g[2] < pos
All == \A p \in 0..(pos-1) : <<E,p>> \in given
=============================================================================
