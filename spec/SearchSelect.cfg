CONSTANTS D = 3
K = 3
N1 = 4
N2 = 0
Mode = "select"
SkipMixed = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Once Complete
PROPERTIES Ends
