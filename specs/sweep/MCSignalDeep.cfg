SPECIFICATION Spec
CONSTANTS LENS = {3, 4, 5, 6}
 MAXRUNS = 3
 MAXSWEEPS = 3
 MAXSIGNALS = 3
INVARIANT Safe
PROPERTY Obeyed
PROPERTY Ends
CHECK_DEADLOCK FALSE
