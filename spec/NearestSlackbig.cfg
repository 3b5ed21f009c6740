CONSTANTS D = 2
K = 3
N = 3
M = 3
Slack = 2
Fallback = TRUE
Guard = TRUE
StrictPrune = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Finds IsNearest Ascending Complete AllNearest
