CONSTANTS K = 2
 N = 2
 MaxSteps = 4
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec
CONSTRAINT OneSplit

CHECK_DEADLOCK FALSE
