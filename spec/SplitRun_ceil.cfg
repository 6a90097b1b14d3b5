CONSTANTS MaxN = 6
 MaxG = 2
 MaxK = 4
 Kinds = {"kfold"}
 Shuffle = FALSE
 Flaws = {"ceil"}
 Sizes0 <- NoSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
