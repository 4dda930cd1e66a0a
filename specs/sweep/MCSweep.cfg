SPECIFICATION Spec
CONSTANTS KINDS = {"pair", "bound", "single"}
 SIZES = {0, 1, 2}
 MAXRUNS = 3
 MAXSWEEPS = 2
 LENS = {3, 4, 5, 6}
ACTION_CONSTRAINT Export
VIEW View
INVARIANT Safe
CHECK_DEADLOCK FALSE
