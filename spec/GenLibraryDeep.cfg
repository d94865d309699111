CONSTANTS
  Items = {1, 2}
  Configs <- TwoByTwo
  CZs = {1, 2}
  Cap = 2
  MaxSteps = 4
  Sloppy = FALSE
INIT GInit
NEXT GNext
CONSTRAINT Emit
INVARIANTS OwnAnswer
CHECK_DEADLOCK FALSE
