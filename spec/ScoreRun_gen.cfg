CONSTANTS As <- FewAs
 Ss = {2,4}
 Ns = {2,3,5}
 MaxLen = 2
 MaxOps = 2
 Flaws = {}
 Emit = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
