SPECIFICATION Spec
CONSTANTS LENS = {3, 4, 5}
 MAXCALLS = 2
 MAXSTEPS = 2
ACTION_CONSTRAINT Export
INVARIANT Safe
CHECK_DEADLOCK FALSE
