CONSTANTS Regs = {1} MaxR = 2 MaxC = 3 Elems = {1, 2} MaxStore = 6
SPECIFICATION MSpec
INVARIANTS Denotes NoSharing
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
