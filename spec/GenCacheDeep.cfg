CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Cap = 3
  MaxSteps = 6
INIT GInit
NEXT GNext
CONSTRAINT Emit
INVARIANTS Bounded NoDuplicates
CHECK_DEADLOCK FALSE
