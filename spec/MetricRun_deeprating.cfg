CONSTANTS Ts = {1,2,5}
 Ps = {0,2,5}
 MaxN = 2
 Folds = 3
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS AbsoluteError SquaredError Spread Jensen Curve Complement Exact FoldMeans Fresh Samples
PROPERTY Begins
CHECK_DEADLOCK FALSE
