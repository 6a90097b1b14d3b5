CONSTANTS NU = 2
 NI = 1
 KD = 1
 Scores = {0,3}
 MaxEv = 2
 Moves = 2
 C8 = 4
 Flaws = {"lastevent"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Derivative Accumulated Positive0 Unordered Symmetric Neutral AllPairs
CHECK_DEADLOCK FALSE
