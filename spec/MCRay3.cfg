SPECIFICATION Spec
CONSTANTS FREEZE = TRUE  DIM = 3  SUB = 2  SPAN = 2  LIMITS = {0, 3}  EMIT = FALSE
INVARIANTS ShapeInv InsideInv SoundInv CompleteInv RangeInv MonotoneInv AcceptInv ViewInv
PROPERTY Terminates
