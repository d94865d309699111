CONSTANTS
  N = 3
  MaxRange = 5
  Mats = {m1, m2}
  MaxLayers = 3
SPECIFICATION Spec
INVARIANTS TypeOK Conservation Chained Bounded StopIffRange Balance StaysStopped EmptyNoEffect Cutting Monotonic MonotonicEnergy Commute
CHECK_DEADLOCK FALSE
