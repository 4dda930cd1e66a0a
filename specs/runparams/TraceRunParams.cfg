CONSTANTS Zeros = {"0x0p+0", "-0x0p+0"} Def <- TDef
SPECIFICATION TSpec
INVARIANT NoiseMeaning
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
