CONSTANTS N = 3 MaxLen = 8 MaxK = 4
SPECIFICATION MSpec
INVARIANTS ClaimsTrue CentreAgrees
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
