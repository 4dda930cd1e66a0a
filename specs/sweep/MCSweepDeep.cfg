SPECIFICATION Spec
CONSTANTS KINDS = {"pair", "bound", "single"}
 SIZES = {0, 1, 2}
 MAXRUNS = 4
 MAXSWEEPS = 2
 LENS = {4, 5, 6, 7, 8}
ACTION_CONSTRAINT Export
VIEW View
INVARIANT Safe
CHECK_DEADLOCK FALSE
