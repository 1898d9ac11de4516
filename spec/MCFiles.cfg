INIT Init
NEXT Next
CONSTANTS
  Dec <- DecImpl
  G6 <- Same
  I2F <- I2FImpl
  Nrm <- Same
  D255 <- Same
VIEW StateView
INVARIANTS Emit Allowed ReadsRight
PROPERTIES Frame Transparent
CHECK_DEADLOCK FALSE
