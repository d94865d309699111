CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Cap = 3
  MaxSteps = 9
SPECIFICATION Spec
INVARIANTS Bounded NoDuplicates OwnAnswer AnswerStored HeldStored Retention
PROPERTIES HitIsSilent MissKeepsYounger
CHECK_DEADLOCK FALSE
