SPECIFICATION Spec
CONSTANTS
 Objs <- MCObjs
 Scale <- MCScale
 MaxOps = 5
 MaxCopies = 2
 Slots = {1}
 Payloads = 1
 Hierarchies = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
