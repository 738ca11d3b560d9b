CONSTANTS w1 = w1 w2 = w2 t1 = t1 t2 = t2
 W = {w1, w2}
 PT = {t1, t2}
 Child <- ChildC
Variant = "ok"
SPECIFICATION Spec
INVARIANTS OnceOnly AllRun NoLostTask NeverWild
PROPERTIES Refines Terminates
