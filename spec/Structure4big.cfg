CONSTANTS MIN = 1
MAX = 4
REI = 2
Dim = 2
N = 12
BulkSizes = {}
ByHeight = FALSE
Removals = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved NoMix NoEmpty Balanced WithinMax WithinMin Reachable InsertDefined
