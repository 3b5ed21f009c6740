SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Side = 2
 MaxPts = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
