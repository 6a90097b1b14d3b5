CONSTANTS
 NU = 2
 NI = 1
 NL = 2
 K = 2
 MaxEv = 3
 MaxIter = 2
 Al8 = 0
 Guesses = {6}
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ProperAlways Responsible Predicted NeutralUnknown
PROPERTIES Steps Ascent
CHECK_DEADLOCK FALSE
