CONSTANTS U = 2 Labels = {1} Coefs = {0, 1} MaxLen = 4 MaxTerms = 2 MaxWin = 3
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Monotone
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
