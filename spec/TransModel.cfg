CONSTANTS T = 2 MaxR = 5 MaxC = 5
SPECIFICATION Spec
INVARIANTS AtMostOnce CoversAll
PROPERTY Ends
