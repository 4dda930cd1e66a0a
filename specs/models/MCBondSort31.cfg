CONSTANTS A = 3 B = 1
SPECIFICATION Spec
INVARIANT Same Conserved
CHECK_DEADLOCK FALSE
