CONSTANTS
 Conts = {"a", "b"}
 Recs = {"r"}
 Depth = 3
 Flaws = {}
 Ids = {1, 2, 3}
 Wide = FALSE
SPECIFICATION GenSpec
CONSTRAINT LoadFirst
CHECK_DEADLOCK FALSE
