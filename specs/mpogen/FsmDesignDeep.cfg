SPECIFICATION Spec
CONSTANTS N = 3
          Labels = {1, 2}
          Coefs = {1}
          MaxTerms = 3
INVARIANTS Faithful OneEntryOneExit
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
