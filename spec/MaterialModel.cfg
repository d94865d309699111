CONSTANTS
  Registers = {0, 1}
  MaxSteps = 3
SPECIFICATION Spec
INVARIANTS Fractions1 Balance Positive Convert Between
PROPERTIES OneOnly
CHECK_DEADLOCK FALSE
