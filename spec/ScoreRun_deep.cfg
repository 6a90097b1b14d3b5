CONSTANTS As <- ManyAs
 Ss = {2,4,6}
 Ns = {2,3,4}
 MaxLen = 2
 MaxOps = 3
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
VIEW NoHist
INVARIANTS DigitIsNearest FastIsNearest CountedOnce LevelsAreFixed Monotone Binary
PROPERTY Threshold
CHECK_DEADLOCK FALSE
