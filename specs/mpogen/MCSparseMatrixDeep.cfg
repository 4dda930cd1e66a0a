CONSTANTS Regs = {1} MaxR = 3 MaxC = 3 Elems = {1} MaxStore = 9
SPECIFICATION MSpec
INVARIANTS Denotes NoSharing
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
