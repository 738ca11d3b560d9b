---------------------------- MODULE SHA3SelfTest ----------------------------
(* Published answers for the SHA3-256 specification, and the agreement of    *)
(* the byte and bit views.                                                   *)
EXTENDS SHA3
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME \A i \in 1..24 : RCs[i] = <<RcLimb(i-1,0), RcLimb(i-1,1), RcLimb(i-1,2), RcLimb(i-1,3)>>
ASSUME SHA3(<<>>) = <<167,255,198,248,191,30,215,102,81,193,71,86,160,97,214,98,245,128,255,77,228,59,73,250,130,216,10,75,128,248,67,74>>
ASSUME SHA3(<<97,98,99>>) = <<58,152,93,167,79,226,37,178,4,92,23,45,107,211,144,189,133,95,8,110,62,157,82,91,70,191,226,69,17,67,21,50>>
ASSUME SHA3([i \in 1..200 |-> i-1]) = <<95,114,143,99,191,94,228,140,119,244,83,192,73,3,152,250,100,91,141,76,78,86,190,154,65,207,236,52,77,108,168,153>>
ASSUME SHA3([i \in 1..135 |-> 0]) = <<125,8,13,123,169,120,167,92,138,125,31,155,229,102,200,89,8,69,9,201,194,180,146,132,53,194,37,213,119,125,152,227>>
ASSUME SHA3([i \in 1..136 |-> 0]) = <<231,114,201,207,158,185,201,145,205,252,241,37,0,27,69,79,219,192,169,95,24,141,27,76,132,74,160,50,173,110,7,94>>
ASSUME SHA3([i \in 1..272 |-> 0]) = <<93,134,168,204,74,168,240,217,129,70,167,71,40,24,101,166,37,161,159,149,128,238,243,46,56,144,89,32,188,83,44,92>>
ASSUME SHA3Bits(<<<<1,0,0>>, <<>>, <<0,0,1,1,0, 0,1>>, <<0,0,0,1,1,0, 1,1,0,0,0,1,1>>>>) = SHA3(<<97,98,99>>)
=============================================================================
