SPECIFICATION Spec
CONSTANTS
  HPD = 24
  MPH = 60
  SPM = 60
  Depth = 60
  Mix = "all"
INVARIANTS AllNormal Emit
CHECK_DEADLOCK FALSE
