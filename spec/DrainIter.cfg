CONSTANTS D = 3
K = 3
N = 4
LoseEmptied = FALSE
StaleDrop = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlySelected AllAtTheEnd Conserved SizeRight TightAfter NoEmptyAfter DepthsKept LeakEmpties
PROPERTIES Ends
