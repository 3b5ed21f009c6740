CONSTANTS D = 2
K = 2
N1 = 2
N2 = 2
Mode = "join"
SkipMixed = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Once Complete
PROPERTIES Ends
