SPECIFICATION Spec
CONSTANTS
 Dim = 3
 Side = 1
 MaxPts = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
