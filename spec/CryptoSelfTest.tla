--------------------------- MODULE CryptoSelfTest ---------------------------
(* Anchors the cryptographic specifications: published known answers and     *)
(* algebraic definitions. Evaluated by TLC as assumptions.                   *)
EXTENDS AES, SHA2
VARIABLE x
Init == x = 0
Next == UNCHANGED x
FIPSpt == <<0,17,34,51,68,85,102,119,136,153,170,187,204,221,238,255>>
ASSUME \A a \in 0..255 : SBoxOk(a)
ASSUME AES128([i \in 1..16 |-> i-1], FIPSpt) = <<105,196,224,216,106,123,4,48,216,205,183,128,112,180,197,90>>
ASSUME Enc(RoundKeysN([i \in 1..24 |-> i-1],6), FIPSpt) = <<221,169,124,164,134,76,223,224,110,175,112,160,236,13,113,145>>
ASSUME Enc(RoundKeysN([i \in 1..32 |-> i-1],8), FIPSpt) = <<142,162,183,202,81,103,69,191,234,252,73,144,75,73,96,137>>
ASSUME SHA256(<<97,98,99>>) = <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
ASSUME SHA256(<<>>) = <<227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85>>
ASSUME SHA256([i \in 1..200 |-> i-1]) = <<25,1,218,28,159,105,155,72,246,178,99,110,101,203,247,58,191,153,208,68,30,246,127,92,84,10,66,247,5,29,236,111>>
ASSUME \A h \in {Compress1(H1IV, Padded(<<97,98,99>>), 0)} :
   WBytes(h[1]) \o WBytes(h[2]) \o WBytes(h[3]) \o WBytes(h[4]) \o WBytes(h[5]) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
=============================================================================
