CONSTANTS
 Conts = {"a", "b"}
 Recs = {"r"}
 Depth = 9
 Flaws = {}
 Ids = {1, 2, 3}
 Wide = FALSE
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
