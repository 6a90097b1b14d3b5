CONSTANTS
 NU = 3
 NI = 1
 NL = 2
 K = 2
 MaxEv = 1
 MaxIter = 2
 Al8 = 8
 Guesses = {3}
 Flaws = {"smoothclasses"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ProperAlways Responsible
PROPERTIES Steps
CHECK_DEADLOCK FALSE
