CONSTANTS G = 3
Variant = "ok"
SPECIFICATION Spec
INVARIANTS FileRight ValuesRight PublicRight CountRight
CHECK_DEADLOCK FALSE
