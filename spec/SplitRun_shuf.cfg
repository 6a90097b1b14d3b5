CONSTANTS MaxN = 3
 MaxG = 2
 MaxK = 2
 Kinds = {"shuffle"}
 Shuffle = TRUE
 Flaws = {}
 Sizes0 <- FewSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
