SPECIFICATION Spec
CONSTANTS
  HPD = 24
  MPH = 60
  SPM = 60

CHECK_DEADLOCK TRUE
