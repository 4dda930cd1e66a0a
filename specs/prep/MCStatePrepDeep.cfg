CONSTANTS Dims <- D6 Family = "same" Weights = {1, 2, 4} MaxTerms = 3 Limits <- L2 Errs = {0, 100}
SPECIFICATION Spec
INVARIANTS NeverEmpty Cuttable Bounded ExactIfRoom OnlyRestricts Fidelity
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
