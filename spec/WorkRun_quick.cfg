CONSTANTS
 Fams = {1, 2}
 MaxActs = 6
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS LoadedIsConverted
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
