SPECIFICATION Spec
CONSTANTS
  B = 1000000000
CHECK_DEADLOCK TRUE
