CONSTANTS
 Kinds = {"one", "two", "comment", "hash", "blank", "short", "spaces"}
 MaxLines = 4
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
