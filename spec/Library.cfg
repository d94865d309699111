CONSTANTS
  Items = {1, 2}
  Configs <- TwoByTwo
  CZs = {1, 2}
  Cap = 2
  MaxSteps = 5
  Sloppy = FALSE
SPECIFICATION Spec
INVARIANTS OwnAnswer NoDuplicates Bounded
PROPERTIES DefaultKept
CHECK_DEADLOCK FALSE
