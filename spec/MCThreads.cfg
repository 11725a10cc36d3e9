SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2, t3}
  Arg <- MCArg
  MaxCalls = 2
  Place = "own"
  Op <- MCOp
  Key <- MCKey
  NoPlace <- MCNone
INVARIANTS AsIfAlone
CHECK_DEADLOCK FALSE
