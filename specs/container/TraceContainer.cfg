CONSTANTS Names = {1, 2, 3, 4}
SPECIFICATION TSpec
INVARIANT OneOwner
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
