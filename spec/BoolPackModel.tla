---------------------------- MODULE BoolPackModel ----------------------------
(* The wire format of bool vectors: eight bools per byte, low bit first,     *)
(* then the remainder one byte each. Checked for every vector up to LEN:     *)
(* unpacking inverts packing, and the byte count is as stated.               *)
EXTENDS Integers, Sequences
CONSTANTS LEN
VARIABLE bits
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k-1)
Full(b) == Len(b) \div 8
ByteAt(b, j) == b[8*j+1] + 2*b[8*j+2] + 4*b[8*j+3] + 8*b[8*j+4] + 16*b[8*j+5] + 32*b[8*j+6] + 64*b[8*j+7] + 128*b[8*j+8]
Pack(b) == [j \in 1..Full(b) |-> ByteAt(b, j-1)] \o SubSeq(b, 8*Full(b)+1, Len(b))
Unpack(w, n) == [i \in 1..n |-> IF i <= 8*(n \div 8) THEN (w[(i-1) \div 8 + 1] \div P2((i-1) % 8)) % 2 ELSE w[n \div 8 + (i - 8*(n \div 8))]]
Init == bits = <<>>
Next == Len(bits) < LEN /\ \E x \in {0,1} : bits' = Append(bits, x)
Inv == Unpack(Pack(bits), Len(bits)) = bits /\ Len(Pack(bits)) = (Len(bits) \div 8) + (Len(bits) % 8)
=============================================================================
