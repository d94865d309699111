CONSTANTS
  Stacks = {0, 1}
  Materials = {1, 2}
  Ths = {1, 3}
  MaxSteps = 5
  MaxLen = 6
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTIES OneOnly FromSomewhere Additive
CHECK_DEADLOCK FALSE
