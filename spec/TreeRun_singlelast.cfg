CONSTANTS
 N = 3
 Width = 2
 Flaws = {"singlelast"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Kept AllPlain InPlace Untouched
CHECK_DEADLOCK FALSE
