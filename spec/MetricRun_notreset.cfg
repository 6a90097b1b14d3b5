CONSTANTS Ts = {1,2}
 Ps = {0,2}
 MaxN = 2
 Folds = 2
 Flaws = {"notreset"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS AbsoluteError SquaredError Spread Jensen Curve Complement Exact FoldMeans Fresh Samples
PROPERTY Begins
CHECK_DEADLOCK FALSE
