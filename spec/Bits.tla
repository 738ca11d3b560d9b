-------------------------------- MODULE Bits --------------------------------
(* Bit-level meaning of memory: bit k of a byte string is bit k%8 of byte    *)
(* k\div 8, least significant first.                                         *)
EXTENDS Integers, Sequences, Bitwise, TLC
BitOf(s, k) == (s[(k \div 8) + 1] \div 2^(k % 8)) % 2
(* bit matrices, row major *)
TransOk(in, out, rows, cols) ==
  /\ Len(out) = (rows*cols) \div 8 /\ Len(in) = (rows*cols) \div 8
  /\ \A r \in 0..(rows-1) : \A c \in 0..(cols-1) : BitOf(in, r*cols + c) = BitOf(out, c*rows + r)
(* bools are 0/1 sequences; pos: where bit i goes *)
Pos(i, len, rev) == IF rev THEN len - 1 - i ELSE i
ToBoolOk(in, out, len, rev) == Len(out) = len /\ \A i \in 0..(len-1) : out[Pos(i,len,rev)+1] = BitOf(in, i)
FromBoolOk(data, before, after, len, rev) ==
  /\ Len(before) = Len(after)
  /\ \A i \in 0..(8*Len(after)-1) : BitOf(after, i) = IF i < len THEN data[Pos(i,len,rev)+1] ELSE BitOf(before, i)
(* machine integers as little-endian bytes; beyond the type the sign (signed) or 0 *)
IntBit(v, i, signed) == IF i < 8*Len(v) THEN BitOf(v, i) ELSE IF signed THEN BitOf(v, 8*Len(v)-1) ELSE 0
IntToBoolOk(v, out, len, signed) == Len(out) = len /\ \A i \in 0..(len-1) : out[i+1] = IntBit(v, i, signed)
BoolToIntOk(data, v) == Len(data) = 8*Len(v) /\ \A i \in 0..(Len(data)-1) : data[i+1] = BitOf(v, i)
XorSeq(a,b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
XorEach(a,y) == [i \in 1..Len(a) |-> a[i] ^^ y[((i-1) % 16) + 1]]
SetBitOk(a, i, out) == \A k \in 0..127 : BitOf(out, k) = IF k = i THEN 1 ELSE BitOf(a, k)
Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexOf(_,_)
HexOf(a, i) == IF i = 0 THEN "" ELSE Hex[(a[i] \div 16)+1] \o Hex[(a[i] % 16)+1] \o HexOf(a, i-1)
Shown(a) == HexOf(SubSeq(a,9,16), 8) \o " " \o HexOf(SubSeq(a,1,8), 8)
=============================================================================
