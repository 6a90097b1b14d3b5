CONSTANTS NU = 2
 NI = 2
 KD = 1
 Scores = {0,1}
 MaxEv = 3
 Moves = 0
 C8 = 4
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
