CONSTANTS CR = {1, 2} OR = {1, 2} Labels = {0, 1} OpLabels = {0, 1} MaxC = 2 MaxO = 2
SPECIFICATION MSpec
INVARIANT Laws
ACTION_CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
