SPECIFICATION Spec
CONSTANTS
  HPD = 2
  MPH = 3
  SPM = 2
  Res = {1, 2, 6}
  MaxTicks = 400
  Steps0 = {1, 5, 72}
INVARIANTS Meaning SplitsOk DaysOk ConvertOk RoundTrip
CHECK_DEADLOCK FALSE
