CONSTANTS Ts = {1,2,5}
 Ps = {0,3}
 MaxN = 4
 Folds = 1
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
