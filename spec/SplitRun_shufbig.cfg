CONSTANTS MaxN = 4
 MaxG = 2
 MaxK = 3
 Kinds = {"shuffle"}
 Shuffle = TRUE
 Flaws = {}
 Sizes0 <- FewSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
