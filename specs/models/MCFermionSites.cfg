CONSTANTS NS = 3 MaxTerms = 2
SPECIFICATION Spec
INVARIANT Hermitian Conserving Strings
CHECK_DEADLOCK FALSE
