------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* Integer arithmetic on one axis of the cell lattice.  These operators    *)
(* are used by every other module; UnboundedInt proves their laws for all  *)
(* integers with Apalache.                                                 *)
(***************************************************************************)
EXTENDS Integers

\* @type: Int => Int;
Abs(x)     == IF x < 0 THEN -x ELSE x
\* @type: Int => Int;
Sgn(x)     == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* @type: (Int, Int) => Int;
Min2(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Max2(a, b) == IF a > b THEN a ELSE b
\* @type: (Int, Int) => Int;
FloorDiv(a, b) == a \div b               \* b > 0
\* @type: (Int, Int) => Int;
CeilDiv(a, b)  == -((-a) \div b)         \* b > 0
\* @type: (Int, Int) => Int;
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
\* @type: (Int, Int, Int) => Bool;
Near(a, b, tol) == Abs(a - b) <= tol

\* The cells that contain coordinate p: one, or the two that share the
\* boundary on which p lies (which of them is chosen is unspecified).
\* @type: (Int, Int) => Set(Int);
Nearest1(p, S) == LET q == (2 * p + S) \div (2 * S)
                  IN IF (2 * p + S) % (2 * S) = 0 THEN {q - 1, q} ELSE {q}

\* Rounding outwards to whole cells, and by one more where already aligned.
\* @type: (Int, Int) => Int;
DiscLo(x, S) == FloorDiv(x, S) * S
\* @type: (Int, Int, Bool) => Int;
DiscHi(x, S, expand) == CeilDiv(x, S) * S + (IF expand /\ x % S = 0 THEN S ELSE 0)

\* Rounding outwards to whole tiles.
\* @type: (Int, Int) => Int;
TileDown(c, t) == (c \div t) * t
\* @type: (Int, Int) => Int;
TileUp(c, t)   == CeilDiv(c, t) * t

(***************************************************************************)
(* Growth on one axis.  The map must cover its old extent and every cell   *)
(* that contains a point of the requested region, rounded out to whole     *)
(* tiles.  Where a corner of the region falls on the lattice, one further  *)
(* cell is tolerated on either side (rounding makes it unspecified).       *)
(***************************************************************************)
\* @type: (Int, Int, Int, Int, Bool) => Set(Int);
LoCands(oldlo, x, S, tile, blank) ==
  { TileDown(IF blank THEN q ELSE Min2(oldlo, q), tile)
    : q \in Nearest1(x, S) \cup { k - 1 : k \in Nearest1(x, S) } }
\* @type: (Int, Int, Int, Int, Bool) => Set(Int);
HiCands(oldhi, y, S, tile, blank) ==
  { TileUp(IF blank THEN q ELSE Max2(oldhi, q), tile)
    : q \in { k + 1 : k \in Nearest1(y, S) } \cup { k + 2 : k \in Nearest1(y, S) } }
=============================================================================
