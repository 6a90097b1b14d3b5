CONSTANTS Ts = {1,2,5}
 Ps = {0,2,4}
 MaxN = 2
 Folds = 2
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS AbsoluteError SquaredError Spread Jensen Curve Complement Exact FoldMeans Fresh Samples
PROPERTY Begins
CHECK_DEADLOCK FALSE
