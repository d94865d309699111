CONSTANTS
  Stacks = {0, 1}
  Materials = {0}
  MaxSteps = 5
  MaxLen = 16
INIT Init
NEXT Next
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
