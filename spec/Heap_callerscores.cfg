CONSTANTS
 Conts = {"a", "b"}
 Recs = {"r"}
 Depth = 3
 Flaws = {"scores of the caller kept"}
 Ids = {1, 2, 3}
 Wide = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Refines Learned Meaningful
PROPERTY FrameProp
