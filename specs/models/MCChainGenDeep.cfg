CONSTANTS Len0 = 2 MaxTerms = 3
SPECIFICATION MSpec
INVARIANT Neutral OrderFree
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
