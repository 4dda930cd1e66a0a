CONSTANTS Dims <- D4 Family = "flip" Weights = {1, 2, 3} MaxTerms = 3 Limits <- L1 Errs = {0, 60, 200}
SPECIFICATION Spec
INVARIANTS NeverEmpty Cuttable Bounded ExactIfRoom OnlyRestricts Fidelity
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
