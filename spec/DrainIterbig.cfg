CONSTANTS D = 3
K = 4
N = 6
LoseEmptied = FALSE
StaleDrop = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlySelected AllAtTheEnd Conserved SizeRight TightAfter NoEmptyAfter DepthsKept LeakEmpties
PROPERTIES Ends
