CONSTANTS D = 2
K = 3
N = 4
LoseEmptied = FALSE
StaleDrop = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlySelected AllAtTheEnd Conserved SizeRight TightAfter NoEmptyAfter DepthsKept LeakEmpties
PROPERTIES Ends
