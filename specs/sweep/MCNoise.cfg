SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
 VALUES = {0, 16, 40}
 CAPS = {30, 100}
 SWEEPS = 3
 STEPS = 2
