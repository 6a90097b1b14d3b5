CONSTANTS
 Fams = {1, 2, 3}
 MaxActs = 7
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS LoadedIsConverted
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
