CONSTANTS As <- FewAs
 Ss = {2,4}
 Ns = {2,3}
 MaxLen = 1
 MaxOps = 2
 Flaws = {"cached"}
 Emit = FALSE
SPECIFICATION Spec
VIEW NoHist
INVARIANTS DigitIsNearest FastIsNearest CountedOnce LevelsAreFixed Monotone Binary
PROPERTY Threshold
CHECK_DEADLOCK FALSE
