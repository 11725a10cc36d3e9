SPECIFICATION Spec
CONSTANTS
  Texts <- MCTexts
  Behind <- MCBehind
  Errnos = {0, 34}
  Points = {46, 44}
  Variant = "code"
  HPD = 24
  MPH = 60
  SPM = 60
  LenShort = 5
  LenClock = 8
  NEdits = 1
INVARIANTS
  StaysInText
  Outcome
CHECK_DEADLOCK FALSE
