CONSTANTS D = 2
K = 2
N = 3
M = 3
Slack = 2
Fallback = TRUE
Guard = FALSE
StrictPrune = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Finds IsNearest Ascending Complete AllNearest
