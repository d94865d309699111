CONSTANTS
  Registers = {0, 1}
  MaxSteps = 3
INIT Init
NEXT Next
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
