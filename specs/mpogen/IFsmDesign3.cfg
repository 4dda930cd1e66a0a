CONSTANTS U = 3 Labels = {1, 2} Coefs = {0} MaxLen = 3 MaxTerms = 2 MaxWin = 2
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Monotone
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
