CONSTANTS NP = 2
 SELF = 3
 ROUNDS = 2
 Variant = "ok"
SPECIFICATION Spec
INVARIANTS Paired NoFailure NoListener Balanced
PROPERTIES Finish
CHECK_DEADLOCK FALSE
