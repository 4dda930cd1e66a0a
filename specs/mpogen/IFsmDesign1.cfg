CONSTANTS U = 1 Labels = {1, 2} Coefs = {0} MaxLen = 3 MaxTerms = 3 MaxWin = 4
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Monotone
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
