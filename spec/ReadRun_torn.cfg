CONSTANTS
 Kinds = {"one", "two", "three", "comment", "hash", "blank", "short", "surplus"}
 MaxLines = 3
 Flaws = {"torn"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Refused Ordered Joined
CHECK_DEADLOCK FALSE
