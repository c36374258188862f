SPECIFICATION Spec
CONSTANTS FREEZE = TRUE  DIM = 2  SUB = 4  TILE = 2  IDS = {0, 1}  DEPTH = 3  EMIT = FALSE
  OPS = {"new", "newd", "set", "exp", "trk", "clr", "add", "int", "hit", "clone"}
  ASPECTS = {"C04", "C05", "C06", "C11", "C12", "C13", "C14", "C16"}
CONSTRAINT Bound
VIEW NoHist
INVARIANTS GhostInv MarksInv
CHECK_DEADLOCK FALSE
