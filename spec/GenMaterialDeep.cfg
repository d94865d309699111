CONSTANTS
  Registers = {0, 1}
  MaxSteps = 4
INIT Init
NEXT Next
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
