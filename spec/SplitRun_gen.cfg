CONSTANTS MaxN = 7
 MaxG = 3
 MaxK = 3
 Kinds = {"kfold","interlaced"}
 Shuffle = FALSE
 Flaws = {}
 Sizes0 <- NoSizes
 Emit = TRUE
SPECIFICATION Spec
CONSTRAINT FirstStarts
CHECK_DEADLOCK FALSE
