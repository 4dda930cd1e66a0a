SPECIFICATION TSpec
CONSTANT STRICT = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
