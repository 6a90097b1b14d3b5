CONSTANTS
 N = 3
 Width = 2
 Flaws = {"flatarray"}
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Kept AllPlain InPlace Untouched
CHECK_DEADLOCK FALSE
