----------------------------- MODULE GarbleModel -----------------------------
(* Symbolic garbling: a label is a set of symbols (xor = symmetric difference)*)
(* and hash outputs are free symbols named by key and input. Colours (last    *)
(* bits) of all symbols are arbitrary, except the offset's, which is 1.       *)
(* Explored exhaustively over all programs of up to G gates.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS G, Scheme, Variant, Few
VARIABLES wires, gates, col, keys
vars == <<wires, gates, col, keys>>
DD == <<0, 0, {}>>
Delta == {DD}
SX(a, b) == (a \ b) \cup (b \ a)
SumCol(c, s) == Cardinality({x \in s : c[x] = 1}) % 2
Maybe(b, s) == IF b = 1 THEN s ELSE {}
InSym(i) == <<1, i, {}>>
(* a, b: inputs; the third wire is the constant 1, the fourth the constant 0 *)
Input(i, v) == [g |-> {InSym(i)}, e |-> SX({InSym(i)}, Maybe(v, Delta)), v |-> v]
Init == /\ keys = <<>> /\ gates = 0
        /\ \E v \in [1..4 -> 0..1] : v[3] = 1 /\ v[4] = 0 /\ wires = [i \in 1..4 |-> Input(i, v[i])]
        /\ \E c \in [{DD} \cup {InSym(i) : i \in 1..4} -> 0..1] :
              /\ c[DD] = (IF Variant = "evendelta" THEN 0 ELSE 1)
              /\ (Few => c[InSym(4)] = 0)
              /\ (Scheme = "pf" => \A i \in 1..4 : c[InSym(i)] = 0)
              /\ col = c
New(w) == wires' = Append(wires, w)
Hs(k, x) == <<2, k, x>>
(* half gates: keys 2n, 2n+1 of gate n *)
K1 == IF Variant = "sametweak" THEN 0 ELSE 2 * gates
K2 == K1 + 1
HGGen(c, a, b) ==
  LET pa == SumCol(c, a) pb == SumCol(c, b)
      t0 == SX(SX({Hs(K1, a)}, {Hs(K1, SX(a, Delta))}), Maybe(pb, Delta))
      hb == SX({Hs(K2, b)}, {Hs(K2, SX(b, Delta))})
      t1 == SX(hb, a)
      w == SX(SX(SX({Hs(K1, a)}, Maybe(pa, t0)), {Hs(K2, b)}), Maybe(pb, hb))
  IN [t |-> <<t0, t1>>, w |-> w]
HGEva(c, a, b, t) ==
  LET sa == SumCol(c, a) sb == SumCol(c, b)
  IN SX(SX(SX({Hs(K1, a)}, {Hs(K2, b)}), Maybe(sa, t[1])), Maybe(sb, IF Variant = "nob" THEN t[2] ELSE SX(t[2], a)))
PFGen(a, b) == [t |-> <<SX(SX({Hs(K1, a)}, {Hs(K1, SX(a, Delta))}), b)>>, w |-> {Hs(K1, a)}]
PFEva(c, a, b, t) == IF SumCol(c, a) = 1 THEN (IF Variant = "nob" THEN SX({Hs(K1, a)}, t[1]) ELSE SX(SX({Hs(K1, a)}, t[1]), b)) ELSE {Hs(K1, a)}
NewSyms(a, b) == (IF Scheme = "hg" THEN {Hs(K1, a), Hs(K1, SX(a, Delta)), Hs(K2, b), Hs(K2, SX(b, Delta))}
                  ELSE {Hs(K1, a), Hs(K1, SX(a, Delta))}) \ DOMAIN col
(* privacy-free hashes have their last bit set to that of the label hashed *)
(* Few: only one hash output per gate takes both colours, enough to give the output wire both *)
Colourings(a, b) == IF Scheme = "hg" /\ Few THEN {n \in [NewSyms(a, b) -> 0..1] : \A s \in NewSyms(a, b) : s # Hs(K1, a) => n[s] = 0}
                    ELSE IF Scheme = "hg" THEN [NewSyms(a, b) -> 0..1]
                    ELSE {[s \in NewSyms(a, b) |-> SumCol(col, s[3])]}
And(i, j) == LET x == wires[i] y == wires[j] IN
   \E n \in Colourings(x.g, y.g) : LET c == n @@ col IN
      /\ col' = c
      /\ keys' = keys \o (IF Scheme = "hg" THEN <<K1, K2>> ELSE <<K1>>)
      /\ \E ge \in {IF Scheme = "hg" THEN HGGen(c, x.g, y.g) ELSE PFGen(x.g, y.g)} :
           New([g |-> ge.w, e |-> (IF Scheme = "hg" THEN HGEva(c, x.e, y.e, ge.t) ELSE PFEva(c, x.e, y.e, ge.t)), v |-> x.v * y.v])
XorG(i, j) == New([g |-> SX(wires[i].g, wires[j].g), e |-> SX(wires[i].e, wires[j].e), v |-> (wires[i].v + wires[j].v) % 2]) /\ UNCHANGED <<col, keys>>
NotG(i) == New([g |-> SX(wires[i].g, wires[3].g), e |-> SX(wires[i].e, wires[3].e), v |-> 1 - wires[i].v]) /\ UNCHANGED <<col, keys>>
Next == gates < G /\ gates' = gates + 1
   /\ (\E i, j \in 1..Len(wires) : (And(i, j) \/ (i < j /\ XorG(i, j)) \/ (i = j /\ NotG(i))))
Spec == Init /\ [][Next]_vars
(* C06/C07: every label is right, at every gate *)
LabelsRight == \A i \in 1..Len(wires) : wires[i].e = SX(wires[i].g, Maybe(wires[i].v, Delta))
LastBit == Scheme = "pf" => \A i \in 1..Len(wires) : SumCol(col, wires[i].g) = 0 /\ SumCol(col, wires[i].e) = wires[i].v
(* C08: no key twice *)
FreshKeys == \A i, j \in 1..Len(keys) : i # j => keys[i] # keys[j]
=============================================================================
