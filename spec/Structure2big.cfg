CONSTANTS MIN = 2
MAX = 4
REI = 0
Dim = 2
N = 13
BulkSizes = {}
ByHeight = FALSE
Removals = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved NoMix NoEmpty Balanced WithinMax WithinMin Reachable InsertDefined
