CONSTANTS CR = {1, 2, 3} OR = {1, 2, 3}
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
