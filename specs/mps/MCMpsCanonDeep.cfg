CONSTANTS N = 4 MaxLen = 10 MaxK = 2
SPECIFICATION MSpec
INVARIANTS ClaimsTrue CentreAgrees
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
