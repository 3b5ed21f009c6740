\* negative control: reinsertion by height (as before commit ee561e2) mixes elements with inner nodes
CONSTANTS MIN = 2
MAX = 4
REI = 1
Dim = 2
N = 18
BulkSizes = {14, 15, 16, 17}
ByHeight = TRUE
Removals = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoMix
