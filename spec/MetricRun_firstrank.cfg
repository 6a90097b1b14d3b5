CONSTANTS Ts = {0,1}
 Ps = {0,1}
 MaxN = 3
 Folds = 1
 Flaws = {"firstrank"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS AbsoluteError SquaredError Spread Jensen Curve Complement Exact FoldMeans Fresh Samples
PROPERTY Begins
CHECK_DEADLOCK FALSE
