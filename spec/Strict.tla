------------------------------- MODULE Strict -------------------------------
(* Call-by-value application. TLC passes operator arguments lazily and, in   *)
(* actions, evaluates them again at every use; folding over a one-element    *)
(* sequence hands the operator values instead.                               *)
LOCAL INSTANCE SequencesExt
S1(op(_), x) == FoldLeft(LAMBDA z, y : op(y), 0, <<x>>)
S2(op(_,_), a, b) == FoldLeft(op, a, <<b>>)
S3(op(_,_,_), a, b, c) == FoldLeft(LAMBDA z, t : op(z, t[1], t[2]), a, <<<<b, c>>>>)
Fold(op(_,_), base, seq) == FoldLeft(op, base, seq)
=============================================================================
