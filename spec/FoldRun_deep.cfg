CONSTANTS K = 3
 N = 3
 MaxSteps = 5
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoLeak Complete Aligned Independent Numbered OneEach Union Whole
PROPERTY Written
CHECK_DEADLOCK FALSE
