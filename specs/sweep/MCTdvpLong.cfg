SPECIFICATION Spec
CONSTANTS LENS = {6, 7, 8}
 MAXCALLS = 1
 MAXSTEPS = 1
ACTION_CONSTRAINT Export
INVARIANT Safe
CHECK_DEADLOCK FALSE
