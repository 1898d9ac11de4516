INIT Init
NEXT Next
CONSTANTS
  Dec <- DecImpl
  G6 <- Same
  I2F <- Same
  Nrm <- Same
  D255 <- Same
INVARIANTS Enabled_ Reads_ Lists_
CHECK_DEADLOCK FALSE
