-------------------------------- MODULE PRG --------------------------------
(* Seeded pseudo-random generator as a reader of one infinite block stream. *)
(* The stream is a constant operator: the design model leaves it            *)
(* uninterpreted, trace validation plugs in AES in counter mode.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Stream(_,_),   \* Stream(seed, position): one block, a tuple of BS bytes
          Adv(_,_),      \* Adv(position, n): the position n blocks further
          Origin,        \* first position
          BS,            \* bytes per block
          WB,            \* blocks drawn at once for word draws
          WS             \* bytes per word
VARIABLES seed, pos, words
vars == <<seed, pos, words>>

Need(n) == (n + BS - 1) \div BS
Take(n) == TLCEval([i \in 1..n |-> Stream(seed, Adv(pos, i-1))])
ByteOf(blks, i) == blks[((i-1) \div BS) + 1][((i-1) % BS) + 1]

Reseed(s) == seed' = s /\ pos' = Origin /\ words' = <<>>
DrawBlocks(n) == pos' = Adv(pos, n) /\ UNCHANGED <<seed, words>>
BlocksOut(n, out) == \A b \in {Take(n)} :
    Len(out) = n * BS /\ \A i \in 1..(n*BS) : out[i] = ByteOf(b, i)
DrawBytes(n) == pos' = Adv(pos, Need(n)) /\ UNCHANGED <<seed, words>>
BytesOut(n, out) == \A b \in {Take(Need(n))} :
    Len(out) = n /\ \A i \in 1..n : out[i] = ByteOf(b, i)
BoolsOut(n, out) == \A b \in {Take(Need(n))} :
    Len(out) = n /\ \A i \in 1..n : out[i] = ByteOf(b, i) % 2
WordList(b) == TLCEval([k \in 1..((WB*BS) \div WS) |-> [j \in 1..WS |-> ByteOf(b, (k-1)*WS + j)]])
DrawWord == IF words # <<>>
            THEN words' = Tail(words) /\ UNCHANGED <<seed, pos>>
            ELSE words' = Tail(WordList(Take(WB))) /\ pos' = Adv(pos, WB) /\ UNCHANGED seed
WordOut == IF words # <<>> THEN Head(words) ELSE Head(WordList(Take(WB)))
Seek(p) == pos' = p /\ UNCHANGED <<seed, words>>
=============================================================================
