CONSTANTS K = 2
 N = 3
 MaxSteps = 4
 Flaws = {"keepfirst"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoLeak Complete Aligned Independent Numbered OneEach Union Whole
PROPERTY Written
CHECK_DEADLOCK FALSE
