CONSTANTS D = 2
K = 3
N = 4
LoseEmptied = TRUE
StaleDrop = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlySelected AllAtTheEnd Conserved SizeRight TightAfter NoEmptyAfter DepthsKept LeakEmpties
PROPERTIES Ends
