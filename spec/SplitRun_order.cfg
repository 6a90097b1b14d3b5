CONSTANTS MaxN = 6
 MaxG = 2
 MaxK = 2
 Kinds = {"shuffle"}
 Shuffle = FALSE
 Flaws = {}
 Sizes0 <- ManySizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
