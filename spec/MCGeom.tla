------------------------------- MODULE MCGeom -------------------------------
(***************************************************************************)
(* The lattice operators themselves, exhaustively on a small lattice: the  *)
(* state machine walks over all pairs of boxes and points, and the         *)
(* invariants state what the operators are supposed to MEAN.               *)
(***************************************************************************)
EXTENDS GeomRules
CONSTANTS SPAN, SUB, TILE
VARIABLES a, b, p
vars == <<a, b, p>>
R == (-SPAN)..SPAN
Pts == R \X (-1..1)
Boxes == { Box(q[1], q[2]) : q \in { x \in Pts \X Pts : LeqVec(x[1], x[2]) } }
Init == a \in Boxes /\ b = EmptyBox(2) /\ p = <<0, 0>>
Next == \/ b = EmptyBox(2) /\ b' \in Boxes /\ UNCHANGED <<a, p>>
        \/ p = <<0, 0>> /\ p' \in Pts /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
In(x, q) == LeqVec(x.mn, q) /\ LeqVec(q, x.mx)
Inside(x, y) == LeqVec(y.mn, x.mn) /\ LeqVec(x.mx, y.mx)
Aligned(x, k) == \A i \in 1..2 : x.mn[i] % k = 0 /\ x.mx[i] % k = 0
\* The union is the least upper bound, the intersection the set intersection.
EncInv == LET u == Enclosing(a, b) IN
  a # EmptyBox(2) => Inside(a, u) /\ Inside(b, u) /\ (b # EmptyBox(2) => u = Enclosing(b, a))
             /\ \A i \in 1..2 : u.mn[i] \in {a.mn[i], b.mn[i]} /\ u.mx[i] \in {a.mx[i], b.mx[i]}
OvlInv == LET w == Overlapping(a, b) IN
  w = Overlapping(b, a) /\ (w # EmptyBox(2) => (In(w, p) <=> In(a, p) /\ In(b, p)))
\* Rounding outwards: contains, aligned, and nothing smaller does both.
DiscInv == LET d == Discretized(a, SUB, FALSE) IN
  /\ Inside(a, d) /\ Aligned(d, SUB) /\ Discretized(d, SUB, FALSE) = d
  /\ \A i \in 1..2 : a.mn[i] - d.mn[i] < SUB /\ d.mx[i] - a.mx[i] < SUB
TileInv == LET d == Tiled(a, TILE) IN
  /\ Inside(a, d) /\ Aligned(d, TILE) /\ Tiled(d, TILE) = d
  /\ \A i \in 1..2 : a.mn[i] - d.mn[i] < TILE /\ d.mx[i] - a.mx[i] < TILE
\* A point is in the cell whose centre is nearest; a centre is in its own cell only.
NearInv == /\ \A c \in Nearest(p, a.mn, SUB) : \A i \in 1..2 :
                 2 * Abs(Centre(c, a.mn, SUB)[i] - p[i]) <= SUB
           /\ Nearest(p, a.mn, SUB) # {}
           /\ Nearest(Centre(p, a.mn, SUB), a.mn, SUB) = {p}
CloudInv == LET c == CloudBox(<<p, a.mn>>, 2) IN
  In(c, p) /\ In(c, a.mn) /\ In(c, <<0, 0>>)
=============================================================================
