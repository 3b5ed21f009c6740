CONSTANTS MIN = 2
MAX = 4
REI = 1
Dim = 2
N = 22
BulkSizes = {14, 15, 16, 17, 18, 19}
ByHeight = FALSE
Removals = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved NoMix NoEmpty Balanced WithinMax WithinMin Reachable InsertDefined
