CONSTANTS MaxSize = 32
Dim = 2
N = 100000
Extra = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserves Progress FanBound AtLeastTwo NearlyEqualDepth
