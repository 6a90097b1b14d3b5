CONSTANTS
 Kinds = {"one", "two", "three", "comment", "hash", "blank", "short", "surplus"}
 MaxLines = 4
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Complete Refused Ordered Joined
CHECK_DEADLOCK FALSE
