SPECIFICATION MSpec
CONSTANTS N = 3 MaxLen = 4 MaxDeg = 2 MaxC = 2
INVARIANTS ClaimsTrue CentreAgrees
ACTION_CONSTRAINT Export
VIEW View
CHECK_DEADLOCK FALSE
