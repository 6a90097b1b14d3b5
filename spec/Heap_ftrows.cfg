CONSTANTS
 Conts = {"a", "b"}
 Recs = {"r"}
 Depth = 3
 Flaws = {"feature rows not selected"}
 Ids = {1, 2, 3}
 Wide = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Refines Learned Meaningful
PROPERTY FrameProp
