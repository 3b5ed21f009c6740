CONSTANTS D = 3
K = 4
N1 = 6
N2 = 0
Mode = "select"
SkipMixed = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Once Complete
PROPERTIES Ends
