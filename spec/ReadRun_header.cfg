CONSTANTS
 Kinds = {"one", "two", "three", "comment", "hash", "blank", "short", "surplus"}
 MaxLines = 3
 Flaws = {"header"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Complete Refused Ordered Joined
CHECK_DEADLOCK FALSE
