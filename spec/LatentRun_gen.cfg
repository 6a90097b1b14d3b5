CONSTANTS NU = 2
 NI = 2
 NL = 2
 K = 2
 MaxEv = 3
 MaxIter = 0
 Al8 = 8
 Guesses = {4}
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
