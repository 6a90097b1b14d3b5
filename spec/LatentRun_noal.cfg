CONSTANTS
 NU = 2
 NI = 1
 NL = 2
 K = 2
 MaxEv = 2
 MaxIter = 1
 Al8 = 0
 Guesses = {5}
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ProperAlways Responsible Predicted NeutralUnknown
PROPERTIES Steps Ascent
CHECK_DEADLOCK FALSE
