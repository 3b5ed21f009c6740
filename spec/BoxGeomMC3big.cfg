SPECIFICATION Spec
CONSTANTS
 Dim = 3
 Side = 2
 MaxPts = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
