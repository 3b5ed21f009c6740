CONSTANTS MaxSize = 4
Dim = 2
N = 6000
Extra = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserves Progress FanBound AtLeastTwo NearlyEqualDepth
