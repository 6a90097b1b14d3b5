CONSTANTS Ts = {0,1}
 Ps = {0,1,2}
 MaxN = 4
 Folds = 1
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
