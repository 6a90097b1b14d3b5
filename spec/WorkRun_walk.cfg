CONSTANTS
 Fams = {1, 2}
 MaxActs = 11
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
