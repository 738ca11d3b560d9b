CONSTANTS G = 2
Scheme = "hg"
Variant = "ok"
Few = TRUE
SPECIFICATION Spec
INVARIANTS LabelsRight LastBit FreshKeys
CHECK_DEADLOCK FALSE
