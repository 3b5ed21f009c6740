\* negative control: bulk loaded trees are not always balanced
CONSTANTS MaxSize = 4
Dim = 2
N = 600
Extra = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EqualDepth
