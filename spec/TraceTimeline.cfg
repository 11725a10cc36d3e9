SPECIFICATION Spec
CONSTANTS
  HPD = 24
  MPH = 60
  SPM = 60
INVARIANT AllNormal
CHECK_DEADLOCK TRUE
