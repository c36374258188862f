SPECIFICATION Spec
CONSTANTS FREEZE = TRUE  DIM = 2  SUB = 2  SPAN = 8  LIMITS = {0, 5, 9, 14}  EMIT = FALSE
INVARIANTS ShapeInv InsideInv SoundInv CompleteInv RangeInv MonotoneInv AcceptInv ViewInv
PROPERTY Terminates
