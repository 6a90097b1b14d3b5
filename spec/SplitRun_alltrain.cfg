CONSTANTS MaxN = 6
 MaxG = 1
 MaxK = 2
 Kinds = {"shuffle"}
 Shuffle = FALSE
 Flaws = {"alltrain"}
 Sizes0 <- FewSizes
 Emit = FALSE
SPECIFICATION Spec
VIEW NoSched
INVARIANTS Partitioned Even Runs Woven Sizable InOrder Repeatable
PROPERTY Kept
CHECK_DEADLOCK FALSE
