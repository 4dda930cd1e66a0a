CONSTANTS CR = {1} OR = {1, 2} Labels = {0, 1} OpLabels = {0, 1} MaxC = 2 MaxO = 2
SPECIFICATION MSpec
INVARIANT Laws
VIEW View
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
