SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxLim = 5
INVARIANTS NoUseAfterFree FreedOnce WithinLimit OnlyResult Everything Fresh Stops
PROPERTY Terminates
CHECK_DEADLOCK FALSE
