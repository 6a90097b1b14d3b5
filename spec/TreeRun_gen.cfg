CONSTANTS
 N = 4
 Width = 2
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
