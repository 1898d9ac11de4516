INIT Init
NEXT Next
INVARIANTS Refines HolderLives SameCopy NoLeak Live_
CHECK_DEADLOCK FALSE
