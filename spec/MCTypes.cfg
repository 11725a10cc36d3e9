SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
INVARIANTS
  NoAccidentalMix
  Consistent
CHECK_DEADLOCK FALSE
