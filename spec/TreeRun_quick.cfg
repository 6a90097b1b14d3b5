CONSTANTS
 N = 4
 Width = 2
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Kept AllPlain InPlace Untouched
CHECK_DEADLOCK FALSE
