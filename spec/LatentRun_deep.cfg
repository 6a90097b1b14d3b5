CONSTANTS
 NU = 2
 NI = 2
 NL = 2
 K = 2
 MaxEv = 2
 MaxIter = 1
 Al8 = 8
 Guesses = {2, 5}
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ProperAlways Responsible Predicted NeutralUnknown
PROPERTIES Steps Ascent
CHECK_DEADLOCK FALSE
