INIT Init
NEXT Next
CONSTANT Dec <- DecImpl
CONSTANT G6 <- G6Impl
CONSTANT I2F <- I2FImpl
CONSTANT Nrm <- NrmImpl
CONSTANT D255 <- D255Impl
POSTCONDITION Done
CHECK_DEADLOCK FALSE
