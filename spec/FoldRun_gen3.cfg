CONSTANTS K = 3
 N = 3
 MaxSteps = 5
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec
CONSTRAINT OneSplit
CHECK_DEADLOCK FALSE
