CONSTANTS Len0 = 3 MaxTerms = 2
SPECIFICATION MSpec
INVARIANT Neutral OrderFree
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
