CONSTANTS Names = {1, 2, 3} MaxSize = 2 MaxLive = 6 Vals = {1} MaxHeld = 1
SPECIFICATION MSpec
INVARIANT OneOwner
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
