CONSTANTS MaxSize = 20
Dim = 3
N = 40000
Extra = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserves Progress FanBound AtLeastTwo NearlyEqualDepth
