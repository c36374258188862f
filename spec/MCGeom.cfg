SPECIFICATION Spec
CONSTANTS FREEZE = TRUE  ASPECTS = {}  SPAN = 3  SUB = 2  TILE = 3
INVARIANTS EncInv OvlInv DiscInv TileInv NearInv CloudInv
CHECK_DEADLOCK FALSE
