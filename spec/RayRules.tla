------------------------------ MODULE RayRules -----------------------------
(***************************************************************************)
(* The rules of ray tracing (RayCast is their state machine): a ray walks from the cell of its     *)
(* origin to the cell of its end, one cell border at a time, always across *)
(* the border its segment reaches first.                                   *)
(*                                                                         *)
(* A ray is a record                                                       *)
(*   D, S   dimension, sub-units per cell                                  *)
(*   m      lower corner of the box cells are counted from                 *)
(*   o, e   origin and end point (sub-units)                               *)
(*   ml     range limit in HALF sub-units; no limit unless positive, nor   *)
(*          with NoLimit, which stands for infinity                        *)
(*   tt, et rounding slack of the implementation's f32 arithmetic: tt in   *)
(*          1/64 sub-units along the ray, et in quarter sub-units squared; *)
(*          both 0 on lattices where the comparison margins dwarf f32.     *)
(***************************************************************************)
EXTENDS Lattice

CONSTANT FREEZE   \* TRUE: an axis that has reached the end cell never moves
                  \* again.  FALSE is the historic defect (see MCRayBroken).

Delta(r, i) == r.e[i] - r.o[i]

\* Sub-units along axis i from the origin to the k-th border (k >= 1) that is
\* crossed when the walk starts in cell co.
Border(r, co, i, k) ==
  Sgn(Delta(r, i)) * (co[i] * r.S + r.m[i] - r.o[i]) + (2 * k - 1) * (r.S \div 2)

Slack(r, i, j) == (r.tt * Min2(Abs(Delta(r, i)), Abs(Delta(r, j)))) \div 64

\* The k-th border of axis i is reached no later than the q-th of axis j.
Before(r, co, i, k, j, q) ==
  Border(r, co, i, k) * Abs(Delta(r, j))
    <= Border(r, co, j, q) * Abs(Delta(r, i)) + Slack(r, i, j)

Taken(co, c, i) == Abs(c[i] - co[i])
Movable(r, ec, c, i) == IF FREEZE THEN c[i] # ec[i] ELSE Delta(r, i) # 0
Moved(r, c, i) == [c EXCEPT ![i] = @ + Sgn(Delta(r, i))]

\* Axis i may be stepped next from cell c.
MayAdvance(r, co, ec, c, i) ==
  /\ Movable(r, ec, c, i)
  /\ \A j \in 1..r.D : (j # i /\ Movable(r, ec, c, j)) =>
        Before(r, co, i, Taken(co, c, i) + 1, j, Taken(co, c, j) + 1)

\* Four times the squared distance of a cell's centre from the origin, and
\* the range rule.
Dist4(r, c) == LET f(i) == (c[i] * r.S + r.m[i] - r.o[i]) * (c[i] * r.S + r.m[i] - r.o[i])
               IN 4 * Sum(Vec(f, r.D))
NoLimit == 1000000000
Limited(r) == r.ml > 0 /\ r.ml # NoLimit
MayExceed(r, c)  == Limited(r) /\ Dist4(r, c) > r.ml * r.ml - r.et
MustExceed(r, c) == Limited(r) /\ Dist4(r, c) > r.ml * r.ml + r.et

OriginCells(r) == Nearest(r.o, r.m, r.S)
EndCells(r)    == Nearest(r.e, r.m, r.S)
\* Rounding is monotone, so the end cell never lies behind the origin cell.
Consistent(r, co, ec) ==
  \A i \in 1..r.D : ec[i] # co[i] => Sgn(ec[i] - co[i]) = Sgn(Delta(r, i))
Pairs(r) == { q \in OriginCells(r) \X EndCells(r) : Consistent(r, q[1], q[2]) }

-----------------------------------------------------------------------------
(* Geometry.                                                               *)

\* Twice the segment-parameter interval test, in exact integer arithmetic:
\* the segment has a point in the closed cell c.  On every axis the segment is
\* inside for parameters between (lo - o)/d and (hi - o)/d.
LoEdge(r, c, i) == 2 * (c[i] * r.S + r.m[i] - r.o[i]) - r.S
HiEdge(r, c, i) == 2 * (c[i] * r.S + r.m[i] - r.o[i]) + r.S
\* entry and exit numerators over denominator 2*|d|
EntN(r, c, i) == IF Delta(r, i) > 0 THEN LoEdge(r, c, i) ELSE -HiEdge(r, c, i)
ExiN(r, c, i) == IF Delta(r, i) > 0 THEN HiEdge(r, c, i) ELSE -LoEdge(r, c, i)
Touches(r, c, strict) ==
  LET lt(a, b) == IF strict THEN a < b ELSE a <= b
      dd(i) == Abs(Delta(r, i))
      mv == { i \in 1..r.D : Delta(r, i) # 0 }
  IN /\ \A i \in (1..r.D) \ mv : lt(LoEdge(r, c, i), 0) /\ lt(0, HiEdge(r, c, i))
     /\ \A i \in mv : lt(EntN(r, c, i), 2 * dd(i)) /\ lt(0, ExiN(r, c, i))
     /\ \A i, j \in mv : lt(EntN(r, c, i) * dd(j), ExiN(r, c, j) * dd(i))

Manhattan(a, b) == LET f(i) == Abs(a[i] - b[i]) IN Sum(Vec(f, Len(a)))
UnitStep(a, b) == Manhattan(a, b) = 1

-----------------------------------------------------------------------------
(* What one finished run of the implementation must look like, in terms of *)
(* the guards of the walk.  `p' is the reported list of ray cells, `end'   *)
(* the reported end cell (a sequence of length 0 or 1).                    *)

StepWith(r, c0, c1, a, b, geo) ==
  \E i \in 1..r.D : /\ Moved(r, a, i) = b /\ Movable(r, c1, a, i)
                    /\ geo => MayAdvance(r, c0, c1, a, i)

ShapeOK(r, p, end) ==
  IF p = <<>> THEN Len(end) = 1 /\ end[1] \in OriginCells(r) \cap EndCells(r)
  ELSE \E c1 \in (IF Len(end) = 1 THEN { end[1] } \cap EndCells(r) ELSE EndCells(r)) :
       /\ p[1] \in OriginCells(r) /\ p[1] # c1
       /\ \A j \in 1..(Len(p) - 1) :
             StepWith(r, p[1], c1, p[j], p[j + 1], FALSE) /\ p[j + 1] # c1
       /\ IF Len(end) = 1 THEN StepWith(r, p[1], c1, p[Len(p)], c1, FALSE)
          ELSE Limited(r)

GeometryOK(r, p, end) ==
  p # <<>> =>
  \E c1 \in (IF Len(end) = 1 THEN { end[1] } ELSE EndCells(r)) :
     /\ p[1] \in OriginCells(r)
     /\ c1 \in EndCells(r)
     /\ \A j \in 1..(Len(p) - 1) : StepWith(r, p[1], c1, p[j], p[j + 1], TRUE)
     /\ Len(end) = 1 => StepWith(r, p[1], c1, p[Len(p)], c1, TRUE)

RangeOK(r, p, end) ==
  /\ \A j \in 2..Len(p) : ~MustExceed(r, p[j])
  /\ end = <<>> =>
       /\ p # <<>>
       /\ \E i \in 1..r.D :
            /\ Delta(r, i) # 0
            /\ MayExceed(r, Moved(r, p[Len(p)], i))
            /\ \E c1 \in EndCells(r) :
                 /\ Movable(r, c1, p[Len(p)], i)
                 /\ Moved(r, p[Len(p)], i) # c1
                 /\ MayAdvance(r, p[1], c1, p[Len(p)], i)

RayOK(r, p, end) == ShapeOK(r, p, end) /\ GeometryOK(r, p, end) /\ RangeOK(r, p, end)

-----------------------------------------------------------------------------
(* The set view used by whole-cloud operations: which cells a ray may and  *)
(* must report as passed, and whether it may and must report its end.      *)

NextLevel(r, c0, c1, cur) ==
  UNION { { Moved(r, c, i) : i \in { x \in 1..r.D : MayAdvance(r, c0, c1, c, x) } } : c \in cur }
\* k levels beginning with cur (in halves: rays can be long), and the level
\* after them.  Where all cells of a level exceed the limit the walk has ended.
RECURSIVE LevelsFrom(_, _, _, _, _, _)
LevelsFrom(r, c0, c1, cur, k, first) ==
  IF k = 0 \/ cur = {} THEN [seq |-> <<>>, next |-> cur]
  ELSE IF k = 1
  THEN [seq |-> <<cur>>, next |-> IF ~first /\ \A c \in cur : MustExceed(r, c) THEN {}
                                  ELSE TLCEval(NextLevel(r, c0, c1, cur))]
  ELSE LET h == k \div 2
           x == TLCEval(LevelsFrom(r, c0, c1, cur, h, first))
           y == TLCEval(LevelsFrom(r, c0, c1, x.next, k - h, FALSE))
       IN [seq |-> x.seq \o y.seq, next |-> y.next]
\* Levels[t+1] = the cells the walk may be in after t steps, t < distance.
Levels(r, c0, c1) == LevelsFrom(r, c0, c1, { c0 }, Manhattan(c0, c1), TRUE)

ViewOf(r, c0, c1) ==
  LET W == TLCEval(Levels(r, c0, c1))
      L == W.seq
      N == Len(L)
      last == IF N = 0 THEN {} ELSE L[N]
  IN [ freeMay  |-> UNION { IF t = 1 THEN L[t] ELSE { c \in L[t] : ~MustExceed(r, c) } : t \in 1..N },
       freeMust |-> UNION { IF t = 1 THEN L[t]
                            ELSE IF Cardinality(L[t]) = 1
                                 THEN { c \in L[t] : ~MayExceed(r, c) } ELSE {} : t \in 1..N },
       endMay   |-> IF N <= 1 \/ (N = Manhattan(c0, c1) /\ \E c \in last : ~MustExceed(r, c)) THEN { c1 } ELSE {},
       endMust  |-> IF N <= 1 \/ (N = Manhattan(c0, c1) /\ \A c \in last : ~MayExceed(r, c)) THEN { c1 } ELSE {} ]

Meet(ss) == IF ss = {} THEN {} ELSE { x \in UNION ss : \A s \in ss : x \in s }
RayView(r) ==
  LET v == { ViewOf(r, q[1], q[2]) : q \in Pairs(r) }
  IN [ freeMay  |-> UNION { x.freeMay : x \in v },
       freeMust |-> Meet({ x.freeMust : x \in v }),
       endMay   |-> UNION { x.endMay : x \in v },
       endMust  |-> Meet({ x.endMust : x \in v }) ]
CloudView(rs) ==
  LET v == { RayView(r) : r \in rs }
  IN [ occMay   |-> UNION { x.endMay : x \in v },
       occMust  |-> UNION { x.endMust : x \in v },
       freeMay  |-> UNION { x.freeMay : x \in v },
       freeMust |-> UNION { x.freeMust : x \in v } ]
=============================================================================
