SPECIFICATION Spec
CONSTANTS
  B = 3
  Max = 40
INVARIANTS Limbs Arithmetic Laws
CHECK_DEADLOCK FALSE
