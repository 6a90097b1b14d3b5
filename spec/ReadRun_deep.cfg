CONSTANTS
 Kinds = {"one", "two", "three", "comment", "hash", "blank", "short", "surplus", "spaces"}
 MaxLines = 6
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Complete Refused Ordered Joined
CHECK_DEADLOCK FALSE
