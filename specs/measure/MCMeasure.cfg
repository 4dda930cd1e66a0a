CONSTANTS Size = 6 MaxEvents = 2
SPECIFICATION Spec
INVARIANTS Exact Clean Progress AtMostOne
CHECK_DEADLOCK FALSE
