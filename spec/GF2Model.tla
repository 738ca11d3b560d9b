------------------------------ MODULE GF2Model ------------------------------
(* The specification's own algebra, exhaustively on a small field with two   *)
(* limbs: Horner multiplication is the reduced product, the field laws hold, *)
(* x generates the quotient with modulus x^n + R, and the reflected          *)
(* reduction of a plain product is the reflected product.                    *)
EXTENDS GF2
VARIABLES a, b
Elem == {<<x, y>> : x \in 0..(M-1), y \in 0..(M-1)}
Init == a \in Elem /\ b \in Elem
Next == UNCHANGED <<a,b>>
Lo(v) == SubSeq(v,1,L)
Hi(v) == SubSeq(v,L+1,2*L)
ReducedProduct == MulMod(a,b) = Reduce(Lo(ClMul(a,b)), Hi(ClMul(a,b)))
Commutes == MulMod(a,b) = MulMod(b,a) /\ MulMod(a,One) = a
Associates == \A c \in {<<1,0>>, <<2,0>>, <<3,3>>, <<0,1>>, <<1,2>>} :
   MulMod(MulMod(a,b),c) = MulMod(a,MulMod(b,c)) /\ MulMod(PX(a,b),c) = PX(MulMod(a,c),MulMod(b,c))
Reflected == MulReflect(a,b) = ReduceReflect(Lo(ClMul(a,b)), Hi(ClMul(a,b)))
Inverses == a # <<0,0>> => \E c \in Elem : MulMod(a,c) = One
PackIs == Pack(<<a,b>>) = PX(a, MulMod(b, <<2,0>>))
InnerIs == InnerRed(<<a,b>>,<<b,b>>) = Reduce(Lo(InnerNoRed(<<a,b>>,<<b,b>>)), Hi(InnerNoRed(<<a,b>>,<<b,b>>)))
PowersIs == Powers(a,3)[3] = MulMod(a, MulMod(a,a))
=============================================================================
