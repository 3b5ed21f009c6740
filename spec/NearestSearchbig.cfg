CONSTANTS D = 3
K = 3
N = 4
M = 2
Slack = 0
Fallback = TRUE
Guard = TRUE
StrictPrune = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Finds IsNearest Ascending Complete AllNearest
