SPECIFICATION Spec
CONSTANTS
  HPD = 2
  MPH = 2
  SPM = 2
  Res = {1, 2, 6}
  MaxDay = 1
  PosAmounts = {0, 1, 5, 8, 17, 48}
INVARIANTS NormalForm ExactInstant TakeBack ImplArith ImplObs OrderLaws DiffLaws CastLaws
CHECK_DEADLOCK FALSE
