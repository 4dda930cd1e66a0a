CONSTANTS Size = 2 MaxLen = 7 Vals = {1, 2} Kinds = {"mps", "mpo", "vec"}
SPECIFICATION MSpec
INVARIANT FilesHold
PROPERTIES OneSite ReadersWriteNothing
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
