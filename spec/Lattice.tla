------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Integer geometry of kuba's cell lattice.                                *)
(*                                                                         *)
(* All coordinates are integers in "sub-units": S sub-units make one cell  *)
(* edge (S is even), so that cell k of an axis is centred on k*S and       *)
(* reaches from k*S - S/2 to k*S + S/2.  Vectors are sequences of length   *)
(* D (2 or 3).  The implementation works in f32; the harness maps its      *)
(* values to sub-units, and the lattice is chosen so coarse that rounding  *)
(* errors of f32 are orders of magnitude below one sub-unit.               *)
(***************************************************************************)
EXTENDS Scalar, Integers, Sequences, FiniteSets, TLC

Dims(v)    == DOMAIN v
\* (Spelled out as tuples, which TLC evaluates eagerly.)
Vec(f(_), D) == IF D = 2 THEN <<f(1), f(2)>> ELSE <<f(1), f(2), f(3)>>
Add(a, b)  == LET f(i) == a[i] + b[i] IN Vec(f, Len(a))
Sub(a, b)  == LET f(i) == a[i] - b[i] IN Vec(f, Len(a))
Scale(a, k) == LET f(i) == a[i] * k IN Vec(f, Len(a))
NearVec(a, b, tol) == Len(a) = Len(b) /\ \A i \in Dims(a) : Near(a[i], b[i], tol)
Zero(D)    == IF D = 2 THEN <<0, 0>> ELSE <<0, 0, 0>>
MinVec(a, b) == LET f(i) == Min2(a[i], b[i]) IN Vec(f, Len(a))
MaxVec(a, b) == LET f(i) == Max2(a[i], b[i]) IN Vec(f, Len(a))
LeqVec(a, b) == \A i \in Dims(a) : a[i] <= b[i]

RECURSIVE ProdTo(_, _)
ProdTo(n, i) == IF i = 0 THEN 1 ELSE n[i] * ProdTo(n, i - 1)
Prod(n) == ProdTo(n, Len(n))
RECURSIVE SumTo(_, _)
SumTo(n, i) == IF i = 0 THEN 0 ELSE n[i] + SumTo(n, i - 1)
Sum(n) == SumTo(n, Len(n))

\* The product of a vector of sets, as a set of vectors.
Product(s) == IF Len(s) = 2 THEN { <<a, b>> : a \in s[1], b \in s[2] }
              ELSE { <<a, b, c>> : a \in s[1], b \in s[2], c \in s[3] }

(***************************************************************************)
(* Cells and points.                                                       *)
(***************************************************************************)
Nearest(p, off, S) == LET f(i) == Nearest1(p[i] - off[i], S) IN Product(Vec(f, Len(p)))
Centre(c, off, S)  == LET f(i) == c[i] * S + off[i] IN Vec(f, Len(c))

(***************************************************************************)
(* Boxes: [mn |-> lower corner, mx |-> upper corner].                      *)
(***************************************************************************)
Box(mn, mx) == [mn |-> mn, mx |-> mx]
EmptyBox(D) == Box(Zero(D), Zero(D))
BoxOK(mn, mx) == LeqVec(mn, mx)
Discretized(b, S, expand) ==
  LET lo(i) == DiscLo(b.mn[i], S)
      hi(i) == DiscHi(b.mx[i], S, expand)
  IN Box(Vec(lo, Len(b.mn)), Vec(hi, Len(b.mx)))
Tiled(b, t) == LET lo(i) == TileDown(b.mn[i], t)
                   hi(i) == TileUp(b.mx[i], t)
               IN Box(Vec(lo, Len(b.mn)), Vec(hi, Len(b.mx)))
\* An empty first box stands for "nothing yet".
Enclosing(a, b) == IF a = EmptyBox(Len(a.mn)) THEN b
                   ELSE Box(MinVec(a.mn, b.mn), MaxVec(a.mx, b.mx))
Overlapping(a, b) ==
  LET lo == MaxVec(a.mn, b.mn)
      hi == MinVec(a.mx, b.mx)
  IN IF \A i \in Dims(lo) : lo[i] < hi[i] THEN Box(lo, hi)
     ELSE EmptyBox(Len(lo))
\* The smallest box that contains the world origin and all the points.
RECURSIVE CloudBoxOf(_, _, _, _)
CloudBoxOf(p, j, k, D) ==   \* of the points j..k, in halves
  IF j > k THEN EmptyBox(D)
  ELSE IF j = k THEN Box(MinVec(Zero(D), p[j]), MaxVec(Zero(D), p[j]))
  ELSE LET h == (j + k) \div 2
           x == CloudBoxOf(p, j, h, D)
           y == CloudBoxOf(p, h + 1, k, D)
       IN Box(MinVec(x.mn, y.mn), MaxVec(x.mx, y.mx))
CloudBox(p, D) == CloudBoxOf(p, 1, Len(p), D)

(***************************************************************************)
(* Dense arrays of cells: extents n, row-major, the last axis fastest.     *)
(***************************************************************************)
InRange(n, c) == \A i \in Dims(n) : c[i] >= 0 /\ c[i] < n[i]
Index(n, c) == IF Len(n) = 2 THEN 1 + c[1] * n[2] + c[2]
               ELSE 1 + (c[1] * n[2] + c[2]) * n[3] + c[3]
CellAt(n, k) == IF Len(n) = 2 THEN <<(k - 1) \div n[2], (k - 1) % n[2]>>
                ELSE <<(k - 1) \div (n[2] * n[3]),
                       ((k - 1) \div n[3]) % n[2],
                       (k - 1) % n[3]>>
=============================================================================
