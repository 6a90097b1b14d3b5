CONSTANTS
 N = 5
 Width = 2
 Flaws = {}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Kept AllPlain InPlace Untouched
CHECK_DEADLOCK FALSE
