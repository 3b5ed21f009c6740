CONSTANTS Cap = 3
M = 2
Steps = 6
DropOnSpill = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Fits
PROPERTIES PopsLeast
