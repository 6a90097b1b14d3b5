CONSTANTS
 NU = 2
 NI = 1
 NL = 2
 K = 2
 MaxEv = 1
 MaxIter = 2
 Al8 = 8
 Guesses = {3}
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ProperAlways Responsible Predicted NeutralUnknown
PROPERTIES Steps Ascent
CHECK_DEADLOCK FALSE
