CONSTANTS MaxN = 9
 MaxG = 3
 MaxK = 5
 Kinds = {"kfold","interlaced"}
 Shuffle = FALSE
 Flaws = {}
 Sizes0 <- NoSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
