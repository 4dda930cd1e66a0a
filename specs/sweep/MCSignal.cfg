SPECIFICATION Spec
CONSTANTS LENS = {3, 4, 5}
 MAXRUNS = 2
 MAXSWEEPS = 2
 MAXSIGNALS = 2
INVARIANT Safe
PROPERTY Obeyed
PROPERTY Ends
CHECK_DEADLOCK FALSE
