CONSTANTS Names = {1, 2} MaxSize = 2 MaxLive = 5 Vals = {1, 2} MaxHeld = 1
SPECIFICATION MSpec
INVARIANT OneOwner
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
