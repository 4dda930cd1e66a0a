CONSTANTS CR = {1, 2} OR = {} Labels = {0, 1, 2} OpLabels = {0, 1} MaxC = 3 MaxO = 2
SPECIFICATION MSpec
INVARIANT Laws
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
