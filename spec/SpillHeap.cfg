CONSTANTS Cap = 3
M = 2
Steps = 6
DropOnSpill = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Fits
PROPERTIES PopsLeast
