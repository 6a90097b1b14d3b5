CONSTANTS Ts = {1,2}
 Ps = {0,3}
 MaxN = 2
 Folds = 2
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
