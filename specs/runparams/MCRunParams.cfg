CONSTANTS Names = {1, 2} MaxOps = 3 Zeros = {"z"} Def <- MDef
SPECIFICATION MSpec
INVARIANT NoiseMeaning
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
