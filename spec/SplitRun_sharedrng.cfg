CONSTANTS MaxN = 4
 MaxG = 2
 MaxK = 3
 Kinds = {"kfold"}
 Shuffle = TRUE
 Flaws = {"sharedrng"}
 Sizes0 <- NoSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
