SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Side = 4
 MaxPts = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
