CONSTANTS Regs = {1} MaxR = 3 MaxC = 2 Elems = {1, 2} MaxStore = 6
SPECIFICATION MSpec
INVARIANTS Denotes NoSharing
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
