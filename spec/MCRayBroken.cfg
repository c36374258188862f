\* The historic defect: expected to FAIL InsideInv (the walk runs past its end).
SPECIFICATION Spec
CONSTANTS FREEZE = FALSE  DIM = 2  SUB = 2  SPAN = 3  LIMITS = {0}  EMIT = FALSE
INVARIANTS InsideInv
