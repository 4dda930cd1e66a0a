SPECIFICATION Spec
INVARIANTS FormsAgree NoParserFromBadFile
PROPERTIES EndedStaysEnded DocStable
CHECK_DEADLOCK FALSE
VIEW View
