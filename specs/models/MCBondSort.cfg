CONSTANTS A = 2 B = 2
SPECIFICATION Spec
INVARIANT Same Conserved
CHECK_DEADLOCK FALSE
