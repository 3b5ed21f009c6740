SPECIFICATION Spec
CONSTANTS
 Objs <- MCObjs
 Scale <- MCScale
 MaxOps = 5
 MaxCopies = 1
 Slots = {1, 2}
 Payloads = 1
 Hierarchies = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
