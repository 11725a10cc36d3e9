SPECIFICATION Spec
CONSTANTS
  HPD = 24
  MPH = 60
  SPM = 60
  Alphabet = {32, 45, 65, 66, 67, 68, 69, 70, 71, 73, 74, 76, 77, 78, 79, 80, 82, 83, 84, 85, 86, 89, 97, 98, 99, 100, 101, 102, 103, 105, 106, 108, 109, 110, 111, 112, 114, 115, 116, 117, 118, 121}
  MaxLen = 10
  Folding = "ascii"
INVARIANTS Exactly AtMostOne ByName CaseBlind ShortOnly RoundTrip
CHECK_DEADLOCK FALSE
