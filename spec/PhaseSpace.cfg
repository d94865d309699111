CONSTANTS
  Lengths = {0, 1, 2, 3}
  Rates = {0, 1, 4}
  Beams <- BeamRange
  MaxSlabs = 3
SPECIFICATION Spec
INVARIANTS Positive AngleGrows Cutting FreeDrift Additive Unscattered
CHECK_DEADLOCK FALSE
