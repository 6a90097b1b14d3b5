CONSTANTS Ts = {0,1}
 Ps = {0,1,2,4}
 MaxN = 5
 Folds = 1
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS AbsoluteError SquaredError Spread Jensen Curve Complement Exact FoldMeans Fresh Samples
PROPERTY Begins
CHECK_DEADLOCK FALSE
