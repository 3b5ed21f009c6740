CONSTANTS D = 2
K = 3
N = 3
M = 2
Slack = 1
Fallback = FALSE
Guard = TRUE
StrictPrune = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Finds IsNearest Ascending Complete AllNearest
