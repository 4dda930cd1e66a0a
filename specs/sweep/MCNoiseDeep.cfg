SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
 VALUES = {0, 16, 40, 64}
 CAPS = {30, 100}
 SWEEPS = 4
 STEPS = 3
