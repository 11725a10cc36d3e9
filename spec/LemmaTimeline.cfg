CONSTANTS
  HPD = 24
  MPH = 60
  SPM = 60
  F0 = 1000
  T0 = 1
  DivBy = {2, 7}
INIT Init
NEXT Next
