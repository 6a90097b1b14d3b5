CONSTANTS MaxN = 6
 MaxG = 3
 MaxK = 2
 Kinds = {"shuffle"}
 Shuffle = FALSE
 Flaws = {}
 Sizes0 <- ManySizes
 Emit = TRUE
SPECIFICATION Spec
CONSTRAINT FirstStarts
CHECK_DEADLOCK FALSE
