------------------------------ MODULE GridMap ------------------------------
(***************************************************************************)
(* Grid maps, the occupancy update, growth and change tracking.            *)
(*                                                                         *)
(* The specification is shaped like the implementation: a map is a dense   *)
(* array plus the position `lo' of its first cell in the world, and        *)
(* callers address cells RELATIVE to lo.  What users rely on is stated on  *)
(* the ABSOLUTE world: the ghost variables `world' and `marks' record, per *)
(* absolute cell, the value that was last written and the change marks     *)
(* that were last recorded, and GhostInv ties the two views together.      *)
(*                                                                         *)
(* Every public operation is given as a relation between the record before *)
(* and the record after (…Rel).  The state machine below and the trace     *)
(* specification TraceMap both use these relations; nothing is stated      *)
(* twice.                                                                  *)
(***************************************************************************)
EXTENDS RayRules, TLC

CONSTANT ASPECTS    \* the ids of the properties whose conjuncts are enforced
A(p) == p \in ASPECTS

(***************************************************************************)
(* Map records: lo (cells), n (extents), d (values), trk (0/1), chg (a     *)
(* list of relative cells).                                                *)
(***************************************************************************)
Filled(D, lo, n, v) == [lo |-> lo, n |-> n, d |-> TLCEval([k \in 1..Prod(n) |-> v]),
                        trk |-> 0, chg |-> <<>>]
Blank(D) == [lo |-> Zero(D), n |-> Zero(D), d |-> <<>>, trk |-> 0, chg |-> <<>>]
IsBlank(m) == m.lo = Zero(Len(m.lo)) /\ m.n = Zero(Len(m.n))
Hi(m) == Add(m.lo, m.n)
At(m, c) == m.d[Index(m.n, c)]
AbsIn(m, a) == InRange(m.n, Sub(a, m.lo))
AbsAt(m, a) == At(m, Sub(a, m.lo))

SameData(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol)
SameExtent(a, b) == a.lo = b.lo /\ a.n = b.n
SameMarks(a, b) == a.trk = b.trk /\ a.chg = b.chg
SameMap(a, b) == SameExtent(a, b) /\ SameMarks(a, b) /\ a.d = b.d

Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
Range(s) == { s[k] : k \in 1..Len(s) }
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)

-----------------------------------------------------------------------------
(* Reading and writing single cells.  An access outside the extents is     *)
(* rejected and changes nothing.                                           *)

SetRel(old, new, c, v, ok) ==
  IF InRange(old.n, c)
  THEN /\ ok = 1
       /\ SameExtent(old, new) /\ SameMarks(old, new)
       /\ new.d = [old.d EXCEPT ![Index(old.n, c)] = v]
  ELSE /\ ok = 0
       /\ SameMap(old, new)

GetRel(old, new, c, r, ok) ==
  /\ SameMap(old, new)
  /\ IF InRange(old.n, c) THEN ok = 1 /\ r = At(old, c) ELSE ok = 0

-----------------------------------------------------------------------------
(* Growth: see LoCands and HiCands in Scalar.                              *)

Extents(old, lo, n, x, y, S, tile) ==
  \A i \in Dims(lo) :
     /\ lo[i] \in LoCands(old.lo[i], x[i], S, tile, IsBlank(old))
     /\ lo[i] + n[i] \in HiCands(old.lo[i] + old.n[i], y[i], S, tile, IsBlank(old))

\* The content after growth: old cells keep their place in the world, new
\* cells hold the default.
GrownAt(old, lo, n, k, v) ==
  LET c == Sub(Add(CellAt(n, k), lo), old.lo)
  IN IF ~IsBlank(old) /\ InRange(old.n, c) THEN At(old, c) ELSE v
Shifted(old, lo) == TLCEval([k \in 1..Len(old.chg) |->
                       IF IsBlank(old) THEN old.chg[k]
                       ELSE Sub(Add(old.chg[k], old.lo), lo)])

Covers(old, new) == IsBlank(old) \/ (LeqVec(new.lo, old.lo) /\ LeqVec(Hi(old), Hi(new)))

ExpandRel(old, new, x, y, v, S, tile, ok) ==
  /\ ok = 1
  /\ A("C05") => /\ Extents(old, new.lo, new.n, x, y, S, tile)
                 /\ Covers(old, new)
                 /\ Len(new.d) = Prod(new.n)
                 /\ \A k \in 1..Len(new.d) : new.d[k] = GrownAt(old, new.lo, new.n, k, v)
  /\ A("C14") => new.trk = old.trk /\ SameBag(new.chg, Shifted(old, new.lo))

-----------------------------------------------------------------------------
(* The occupancy update.  np = <<hit, miss, min, max, threshold, range,    *)
(* rounding slack of the range>>.                                          *)

HitOf(np, v)  == Min2(v + np[1], np[4])
MissOf(np, v) == Max2(v + np[2], np[3])

HitRel(old, new, c, hit, np, tol, ok) ==
  IF InRange(old.n, c)
  THEN /\ ok = 1
       /\ SameExtent(old, new) /\ SameMarks(old, new)
       /\ Len(new.d) = Len(old.d)
       /\ \A k \in 1..Len(new.d) :
            LET b == IF k # Index(old.n, c) THEN old.d[k]
                     ELSE IF hit THEN HitOf(np, old.d[k]) ELSE MissOf(np, old.d[k])
            IN Near(new.d[k], b, tol)
  ELSE ok = 0 /\ SameMap(old, new)

\* The rays of one cloud, in absolute cells.
CloudRays(D, S, o, pts, np) ==
  { [D |-> D, S |-> S, m |-> Zero(D), o |-> o, e |-> pts[k],
     ml |-> np[6], tt |-> 0, et |-> np[7]] : k \in 1..Len(pts) }

\* The region one integration needs: the sensor and all points (and the world
\* origin, which the bounds of a cloud always include).
IntBox(D, o, pts) == LET b == CloudBox(pts, D) IN Box(MinVec(o, b.mn), MaxVec(o, b.mx))

MustCover(D, S, o, pts, new) ==
  \A q \in { o } \cup { pts[k] : k \in 1..Len(pts) } :
     \E c \in Nearest(q, Zero(D), S) : AbsIn(new, c)

NotBeyond(D, S, tile, o, pts, old, new) ==
  LET b == IntBox(D, o, pts) IN
  \A i \in 1..D :
     /\ new.lo[i] % tile = 0 /\ Hi(new)[i] % tile = 0
     /\ \E q \in LoCands(old.lo[i], b.mn[i], S, tile, IsBlank(old)) : new.lo[i] >= q
     /\ \E q \in HiCands(Hi(old)[i], b.mx[i], S, tile, IsBlank(old)) : Hi(new)[i] <= q

\* What may have happened to absolute cell a, given the cloud's view.
HitAllowed(v, a)  == a \in v.occMay
MissAllowed(v, a) == a \in v.freeMay /\ a \notin v.occMust
NoneAllowed(v, a) == a \notin v.occMust /\ a \notin v.freeMust

CellRel(v, np, tol, a, b, r) ==
  \/ HitAllowed(v, a)  /\ Near(r, HitOf(np, b), tol)
  \/ MissAllowed(v, a) /\ Near(r, MissOf(np, b), tol)
  \/ NoneAllowed(v, a) /\ Near(r, b, tol)

MarksRel(v, old, new) ==
  LET prior == Shifted(old, new.lo)
      touched(x) == Count(new.chg, x) - Count(prior, x)
      a(x) == Add(x, new.lo)
      must == v.occMust \cup v.freeMust
      may  == v.occMay \cup v.freeMay
  IN /\ new.trk = old.trk
     /\ IF old.trk = 0 THEN SameBag(new.chg, prior)
        ELSE /\ \A x \in Range(prior) \cup Range(new.chg) :
                  touched(x) >= 0 /\ touched(x) <= 1
             /\ \A x \in Range(new.chg) : touched(x) = 1 => a(x) \in may
             /\ \A c \in must : touched(Sub(c, new.lo)) = 1

IntegrateRel(old, new, o, pts, D, S, tile, np, tol, ok) ==
  /\ ok = 1
  /\ A("C13") => MustCover(D, S, o, pts, new) /\ NotBeyond(D, S, tile, o, pts, old, new)
  /\ (A("C05") \/ A("C13")) => Covers(old, new)
  /\ Len(new.d) = Prod(new.n)
  /\ (A("C11") \/ A("C14")) =>
       LET v == TLCEval(CloudView(CloudRays(D, S, o, pts, np))) IN
       /\ A("C11") =>
            /\ \A k \in 1..Len(new.d) :
                 LET a == Add(CellAt(new.n, k), new.lo)
                     b == GrownAt(old, new.lo, new.n, k, 0)
                 IN \/ Near(new.d[k], b, 0) /\ NoneAllowed(v, a)
                    \/ CellRel(v, np, tol, a, b, new.d[k])
            /\ \A a \in v.occMust \cup v.freeMust : AbsIn(new, a)
       /\ A("C14") => MarksRel(v, old, new)

OccupiedRel(np, tol, val, oc) ==
  \/ Near(val, np[5], tol - 1)
  \/ oc = (IF val > np[5] THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* The state machine.                                                      *)
VARIABLES maps,    \* id -> map record, or <<>> when there is none
          world,   \* ghost: id -> absolute cell -> value
          marks    \* ghost: id -> list of absolute cells
mapvars == <<maps, world, marks>>
NoMap == <<>>
Live(k) == maps[k] # NoMap

AbsCells(m) == { Add(CellAt(m.n, k), m.lo) : k \in 1..Prod(m.n) }
Fill(cells, v) == TLCEval([a \in cells |-> v])

Create(k, D, lo, n, v) ==
  /\ maps' = [maps EXCEPT ![k] = Filled(D, lo, n, v)]
  /\ world' = [world EXCEPT ![k] = Fill(AbsCells(Filled(D, lo, n, v)), v)]
  /\ marks' = [marks EXCEPT ![k] = <<>>]

SetCell(k, c, v) ==
  /\ Live(k)
  /\ \E ok \in {0, 1} :
       LET new == IF ok = 1 /\ InRange(maps[k].n, c)
                  THEN [maps[k] EXCEPT !.d[Index(maps[k].n, c)] = v] ELSE maps[k]
       IN /\ SetRel(maps[k], new, c, v, ok)
          /\ maps' = [maps EXCEPT ![k] = new]
          /\ world' = IF ok = 1 THEN [world EXCEPT ![k][Add(c, maps[k].lo)] = v] ELSE world
  /\ UNCHANGED marks

Expand(k, x, y, v, S, tile) ==
  /\ Live(k)
  /\ \E old \in { maps[k] } :
     LET fl(i) == LoCands(old.lo[i], x[i], S, tile, IsBlank(old))
         fh(i) == HiCands(Hi(old)[i], y[i], S, tile, IsBlank(old))
     IN
     \E lo \in Product(Vec(fl, Len(x))), hi \in Product(Vec(fh, Len(x))) :
     \E n \in { Sub(hi, lo) } :
     \E new \in { [ lo |-> lo, n |-> n, trk |-> old.trk, chg |-> Shifted(old, lo),
                     d |-> TLCEval([j \in 1..Prod(n) |-> GrownAt(old, lo, n, j, v)]) ] } :
       /\ ExpandRel(old, new, x, y, v, S, tile, 1)
       /\ maps' = [maps EXCEPT ![k] = new]
       /\ world' = [world EXCEPT ![k] = world[k] @@ Fill(AbsCells(new), v)]
       \* marks made on a map without extent count from the world origin
       /\ marks' = IF IsBlank(old)
                   THEN [marks EXCEPT ![k] = [j \in 1..Len(old.chg) |-> Add(old.chg[j], lo)]]
                   ELSE marks

Track(k, b) == /\ Live(k) /\ maps' = [maps EXCEPT ![k].trk = b] /\ UNCHANGED <<world, marks>>
ClearMarks(k) == /\ Live(k) /\ maps' = [maps EXCEPT ![k].chg = <<>>]
                 /\ marks' = [marks EXCEPT ![k] = <<>>] /\ UNCHANGED world
AddMarks(k, cs) == /\ Live(k) /\ maps' = [maps EXCEPT ![k].chg = @ \o cs]
                   /\ marks' = [marks EXCEPT ![k] = @ \o [j \in 1..Len(cs) |-> Add(cs[j], maps[k].lo)]]
                   /\ UNCHANGED world
CloneMap(k, j) == /\ Live(k) /\ j # k
                  /\ maps' = [maps EXCEPT ![j] = maps[k]]
                  /\ world' = [world EXCEPT ![j] = world[k]]
                  /\ marks' = [marks EXCEPT ![j] = marks[k]]

\* One integration, deterministic part: the model resolves the ambiguity of
\* the cloud's view by choosing the set of hits H and of misses F.
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>>
               ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
\* (\E x \in { e } binds x to the value of e, which TLC then computes once.)
Integrate(k, o, pts, D, S, tile, np) ==
  /\ Live(k)
  /\ \E old \in { maps[k] }, b \in { IntBox(D, o, pts) },
        v \in { TLCEval(CloudView(CloudRays(D, S, o, pts, np))) } :
     LET fl(i) == CHOOSE q \in LoCands(old.lo[i], b.mn[i], S, tile, IsBlank(old)) : TRUE
         fh(i) == CHOOSE q \in HiCands(Hi(old)[i], b.mx[i], S, tile, IsBlank(old)) : TRUE
     IN
     \E lo \in { Vec(fl, D) }, hi \in { Vec(fh, D) } : \E n \in { Sub(hi, lo) } :
     \E H \in { v.occMust \cup s : s \in SUBSET (v.occMay \ v.occMust) } :
     \E F \in { ((v.freeMust \cup s) \ H) : s \in SUBSET (v.freeMay \ v.freeMust) } :
     \E q \in { SetToSeq(H \cup F) } :
       LET upd(a, val) == IF a \in H THEN HitOf(np, val)
                          ELSE IF a \in F THEN MissOf(np, val) ELSE val
       IN
       \E new \in { [ lo |-> lo, n |-> n, trk |-> old.trk,
                       d |-> TLCEval([j \in 1..Prod(n) |->
                               upd(Add(CellAt(n, j), lo), GrownAt(old, lo, n, j, 0))]),
                       chg |-> Shifted(old, lo) \o
                               (IF old.trk = 1 THEN [j \in 1..Len(q) |-> Sub(q[j], lo)]
                                ELSE <<>>) ] } :
       \E w \in { world[k] @@ Fill(AbsCells(new), 0) } :
          /\ maps' = [maps EXCEPT ![k] = new]
          /\ world' = [world EXCEPT ![k] = TLCEval([a \in DOMAIN w |-> upd(a, w[a])])]
          /\ marks' = [marks EXCEPT ![k] =
                        (IF IsBlank(old) THEN [j \in 1..Len(old.chg) |-> Add(old.chg[j], lo)]
                         ELSE @)
                        \o (IF old.trk = 1 THEN q ELSE <<>>)]

UpdateCell(k, c, hit, np) ==
  /\ Live(k) /\ InRange(maps[k].n, c)
  /\ LET val == IF hit THEN HitOf(np, At(maps[k], c)) ELSE MissOf(np, At(maps[k], c))
     IN /\ maps' = [maps EXCEPT ![k].d[Index(maps[k].n, c)] = val]
        /\ world' = [world EXCEPT ![k][Add(c, maps[k].lo)] = val]
  /\ UNCHANGED marks

-----------------------------------------------------------------------------
(* Invariants.                                                             *)

\* The relative array and the absolute world agree: last write wins, growth
\* loses nothing, no operation touches a cell it was not asked to touch.
GhostInv == \A k \in DOMAIN maps : Live(k) =>
  /\ Len(maps[k].d) = Prod(maps[k].n)
  /\ DOMAIN world[k] = AbsCells(maps[k])
  /\ \A a \in DOMAIN world[k] : world[k][a] = AbsAt(maps[k], a)
\* Change marks keep naming the same place in the world.
MarksInv == \A k \in DOMAIN maps : (Live(k) /\ ~IsBlank(maps[k])) =>
  marks[k] = [j \in 1..Len(maps[k].chg) |-> Add(maps[k].chg[j], maps[k].lo)]
=============================================================================
