-------------------------------- MODULE CTR ---------------------------------
(* AES-128 in counter mode: the counter block is the IV plus the start chunk *)
(* plus the block number, as a 128-bit big-endian integer.                   *)
EXTENDS Blocks, Bits
Rev16(b) == [i \in 1..16 |-> b[17-i]]
CarryF(acc, x) == <<Append(acc[1], (x + acc[2]) % 256), (x + acc[2]) \div 256>>
AddBE(iv, add8) == S1(LAMBDA r : Rev16(r[1]),
    Fold(CarryF, <<<<>>, 0>>, [i \in 1..16 |-> iv[17-i] + (IF i <= 8 THEN add8[i] ELSE 0)]))
Num8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0,0,0,0,0>>
(* keystream of n blocks as one byte string *)
Stream(key, iv, start, n) == S2(LAMBDA rk, c0 :
    Fold(LAMBDA acc, i : acc \o Enc(rk, AddBE(c0, Num8(i-1))), <<>>, [i \in 1..n |-> i]),
    RoundKeys(key), AddBE(iv, start))
BytesOk(key, iv, start, in, out) == Len(in) = Len(out) /\
    S1(LAMBDA s : \A i \in 1..Len(in) : out[i] = in[i] ^^ s[i], Stream(key, iv, start, (Len(in)+15) \div 16))
BitsOk(key, iv, start, in, out) == Len(in) = Len(out) /\
    S1(LAMBDA s : \A i \in 1..Len(in) : out[i] = in[i] ^^ BitOf(s, i-1), Stream(key, iv, start, (Len(in)+127) \div 128))
=============================================================================
