-------------------------------- MODULE Circ --------------------------------
(* Boolean circuits on 16 assignments at once: a wire is the 16-bit mask of   *)
(* its values. With up to four inputs given as Canon the mask is the whole    *)
(* truth table.                                                               *)
EXTENDS Integers, Sequences, Bitwise, TLC, Strict
Full == 65535
Canon == <<43690, 52428, 61680, 65280>>
Not16(x) == Full - x
Mux(s, x, y) == (s & x) ^^ (Not16(s) & y)   \* s ? x : y
Const16(b) == IF b = 1 THEN Full ELSE 0
(* gate types of files and arrays *)
GateFn(t, x, y) == CASE t = 0 -> x & y [] t = 1 -> x ^^ y [] t = 2 -> Not16(x) [] OTHER -> x | y
(* gate list denotation: gates <<type, a, b, out>>, wire numbers from 0; inputs are the first wires *)
Blank(n, m) == [i \in 0..(n-1) |-> IF i < Len(m) THEN m[i+1] ELSE 0]
GateStep(w, g) == [w EXCEPT ![g[4]] = GateFn(g[1], w[g[2]], w[g[3]])]
Denote(n, m, gs) == Fold(GateStep, Blank(n, m), gs)
Outs(w, n, k) == [i \in 1..k |-> w[n - k + i - 1]]
(* program operations: values of the wires an operation makes, from operand values *)
OpVals(op, a, b, c, x, y, z) ==
  CASE op \in {"and","band"} -> <<x & y>>
    [] op \in {"xor","bxor","bne","bxe"} -> <<x ^^ y>>
    [] op \in {"not","bnot"} -> <<Not16(x)>>
    [] op = "bor" -> <<x | y>>
    [] op = "beq" -> <<Not16(x ^^ y)>>
    [] op = "sel" -> <<Mux(y, z, x)>>
    [] op = "if" -> <<Mux(x, y, z)>>
    [] op = "swap" -> <<Mux(x, z, y), Mux(x, y, z)>>
    [] op \in {"pub","pubfeed"} -> <<Const16(a)>>
    [] OTHER -> <<>>
=============================================================================
