SPECIFICATION Spec
CONSTANTS
  MaxDim = 6
  MaxLim = 7
INVARIANTS NoUseAfterFree FreedOnce WithinLimit OnlyResult Everything Fresh Stops
PROPERTY Terminates
CHECK_DEADLOCK FALSE
