CONSTANTS
 Conts = {"a", "b"}
 Recs = {"r"}
 Depth = 4
 Flaws = {}
 Ids = {1, 2, 3}
 Wide = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Refines Learned Meaningful
PROPERTY FrameProp
