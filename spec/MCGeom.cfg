INIT Init
NEXT Next
CONSTANT Dec <- DecImpl
INVARIANTS Emit BoxExact NearExact FoundExact PickExact CountSane
CHECK_DEADLOCK FALSE
