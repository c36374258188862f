------------------------------ MODULE TraceBig ------------------------------
(***************************************************************************)
(* Recorded histories of huge maps.  The relations are those of GridMap,   *)
(* stated on a sparse view: a map that only ever grew consists of nested   *)
(* boxes, the n-th of which was filled with the default value of its       *)
(* growth, and of the cells that were written since.  The driver reports,  *)
(* for every value held by more than FREQUENT cells, how many cells hold   *)
(* it and the smallest box around them, and it lists all other cells.      *)
(*                                                                         *)
(* If the default values of the growths differ, that decides the content:  *)
(* the first value fills its box but for the written cells, because it     *)
(* lies in that box and there are that many; then the second fills what    *)
(* the first left of the second box; and so on.                            *)
(***************************************************************************)
EXTENDS GridMap, TraceBase

VARIABLES l, hd, ms,
          ly    \* ghost: id -> sequence of [mn, mx, v], innermost first
tvars == <<l, hd, ms, ly, mapvars>>

FREQUENT == 1000
E == Trace[l]
IDs == 0..2
D == hd.D
S == hd.S
Np == Append(hd.np, 0)
Is(op) == E.op = op

Whole(x) == Near(x, 1000 * RoundDiv(x, 1000), 1)
Readable(r) == /\ Has(r, "sp")
               /\ \A i \in 1..D : Whole(r.lo[i]) /\ Whole(r.hi[i])
               /\ Near(r.res, 1000000, 1)
Cells3(v) == LET f(i) == RoundDiv(v[i], 1000) IN Vec(f, D)
Project(r) == LET lo == Cells3(r.lo) IN
  [lo |-> lo, n |-> Sub(Cells3(r.hi), lo), bg |-> r.bg, sp |-> r.sp, trk |-> r.trk, chg |-> r.chg,
   ob |-> r.ob, tile |-> r.tile]
StateOf(k) == IF \E j \in 1..Len(E.st) : E.st[j].id = k
              THEN Project(CHOOSE r \in Range(E.st) : r.id = k) ELSE NoMap
AllReadable == \A j \in 1..Len(E.st) :
  Readable(E.st[j]) /\ (Has(E.st[j], "in") => Readable(E.st[j].in))

Old == ms[E.m]
New == ms'[E.m]
Small(m) == Prod(m.n) <= FREQUENT

-----------------------------------------------------------------------------
(* The sparse view.                                                        *)

\* The written cells of a record, as a function on the absolute world.
Written(m) ==
  LET key(q) == Add(SubSeq(q, 1, D), m.lo)
      idx == [ q \in { key(m.sp[k]) : k \in 1..Len(m.sp) } |-> CHOOSE k \in 1..Len(m.sp) : key(m.sp[k]) = q ]
  IN TLCEval([ q \in DOMAIN idx |-> m.sp[idx[q]][D + 1] ])
InLayer(y, a) == LeqVec(y.mn, a) /\ \A i \in Dims(a) : a[i] < y.mx[i]
NoValue == -2000000002
\* What absolute cell a holds if it was not written.
RECURSIVE BaseFrom(_, _, _)
BaseFrom(ys, k, a) == IF k > Len(ys) THEN NoValue
                      ELSE IF InLayer(ys[k], a) THEN ys[k].v ELSE BaseFrom(ys, k + 1, a)
Base(ys, a) == BaseFrom(ys, 1, a)
ValueIn(w, ys, a) == IF a \in DOMAIN w THEN w[a] ELSE Base(ys, a)

Volume(y) == Prod(Sub(y.mx, y.mn))
Residual(ys, k) == Volume(ys[k]) - (IF k = 1 THEN 0 ELSE Volume(ys[k - 1]))
RECURSIVE CountTo(_, _, _, _)
CountTo(ys, w, v, k) ==
  IF k = 0 THEN 0
  ELSE CountTo(ys, w, v, k - 1) +
       (IF ys[k].v # v THEN 0
        ELSE Residual(ys, k) -
             Cardinality({ a \in DOMAIN w : InLayer(ys[k], a) /\ (k = 1 \/ ~InLayer(ys[k - 1], a)) }))

\* The record shows exactly the layers ys and the written cells w.
Shows(m, ys, w) ==
  LET ww == { a \in DOMAIN w : w[a] # Base(ys, a) }
      wf == TLCEval([ a \in ww |-> w[a] ])
      values == { ys[k].v : k \in 1..Len(ys) }
  IN /\ TLCEval(Written(m)) = wf
     /\ Len(m.sp) = Cardinality(DOMAIN wf)
     /\ \A v \in values : CountTo(ys, wf, v, Len(ys)) # 0 =>
          \E b \in Range(m.bg) :
             /\ b.v = v /\ b.k = CountTo(ys, wf, v, Len(ys))
             /\ \E k \in 1..Len(ys) : /\ ys[k].v = v
                                      /\ LeqVec(ys[k].mn, Add(b.lo, m.lo)) /\ LeqVec(Add(b.hi, m.lo), ys[k].mx)
                                      /\ \A j \in (k + 1)..Len(ys) : ys[j].v # v
     /\ \A b \in Range(m.bg) : b.v \in values

\* All the cells of a small box, as written cells.
AllCells(lo, n) == { Add(CellAt(n, k), lo) : k \in 1..Prod(n) }
Layer(lo, n, v) == [mn |-> lo, mx |-> Add(lo, n), v |-> v]

\* The layers after growth to lo, n.
Grown(ys, old, lo, n, v) ==
  IF IsBlank(old) \/ ys = <<>> THEN <<Layer(lo, n, v)>>
  ELSE IF lo = old.lo /\ n = old.n THEN ys
  ELSE IF ys[Len(ys)].v = v THEN [ys EXCEPT ![Len(ys)] = Layer(lo, n, v)]
  ELSE Append(ys, Layer(lo, n, v))
\* (A small map is all written cells.)
Layers(old, ys, lo, n, v) == IF Prod(n) <= FREQUENT THEN <<>> ELSE Grown(ys, old, lo, n, v)
WrittenIn(w, ys, lo, n, v) ==
  IF Prod(n) > FREQUENT THEN w
  ELSE [ a \in AllCells(lo, n) |-> IF a \in DOMAIN w THEN w[a] ELSE v ]

-----------------------------------------------------------------------------
(* The calls.                                                              *)
FrameOK(k) == \A j \in IDs \ {k} : A("C16") => ms'[j] = ms[j]
OccOK == A("C12") => \A k \in IDs : ms'[k] # NoMap =>
  \A o \in Range(ms'[k].ob) : o[2] = o[3] /\ (o[2] = 2 \/ OccupiedRel(Np, hd.tol, o[1], o[2]))
TileOK == (A("C04") \/ A("C05") \/ A("C15")) => New.tile = hd.tile
SameView(a, b) == /\ a.lo = b.lo /\ a.hi = b.hi /\ a.res = b.res /\ a.trk = b.trk /\ a.n = b.n
                  /\ a.bg = b.bg /\ a.sp = b.sp /\ a.ob = b.ob
FacadeOK == A("C15") =>
  /\ \A j \in 1..Len(E.st) : Has(E.st[j], "in") => SameView(E.st[j], E.st[j].in) /\ E.st[j].chg = E.st[j].in.chg
  /\ Has(E, "tw") =>
       LET a == CHOOSE x \in Range(E.st) : x.id = E.m
           b == E.tw.st[1]
       IN /\ E.tw.ok = E.ok
          /\ Has(E, "r") => Has(E.tw, "r") /\ E.tw.r = E.r
          /\ SameView(a, b) /\ a.tile = b.tile /\ SameBag(a.chg, b.chg)

Keep == ly' = ly
KeepContent(a, b) == SameExtent(a, b) /\ a.bg = b.bg /\ a.sp = b.sp
SameRec(a, b) == KeepContent(a, b) /\ SameMarks(a, b)
W == TLCEval(Written(Old))
Y == ly[E.m]

THeader == Is("bhist") /\ hd' = E /\ ms' = [k \in IDs |-> NoMap] /\ ly' = [k \in IDs |-> <<>>]

TNew == /\ Is("new") /\ E.ok = 1
        /\ LET n == Sub(E.hi, E.lo)
               ys == IF Prod(n) <= FREQUENT THEN <<>> ELSE <<Layer(E.lo, n, E.v)>>
           IN /\ ly' = [ly EXCEPT ![E.m] = ys]
              /\ New.lo = E.lo /\ New.n = n /\ New.trk = 0 /\ New.chg = <<>>
              /\ Shows(New, ys, WrittenIn(<<>>, ys, E.lo, n, E.v))
TNewDefault == /\ Is("newd") /\ E.ok = 1 /\ ly' = [ly EXCEPT ![E.m] = <<>>]
               /\ New.lo = Zero(D) /\ New.n = Zero(D) /\ New.sp = <<>> /\ New.bg = <<>>
               /\ New.trk = 0 /\ New.chg = <<>>
Replace(w, a, v) == TLCEval([ x \in DOMAIN w \cup {a} |-> IF x = a THEN v ELSE w[x] ])
TSet == /\ Is("set") /\ Keep
        /\ IF InRange(Old.n, E.c)
           THEN /\ E.ok = 1 /\ SameExtent(Old, New) /\ SameMarks(Old, New)
                /\ Shows(New, Y, Replace(W, Add(E.c, Old.lo), E.v))
           ELSE E.ok = 0 /\ SameRec(Old, New)
TGet == /\ Is("get") /\ Keep /\ SameRec(Old, New)
        /\ IF InRange(Old.n, E.c) THEN E.ok = 1 /\ E.r = ValueIn(W, Y, Add(E.c, Old.lo)) ELSE E.ok = 0
TUpdate == /\ Is("hit") \/ Is("mis")
           /\ Keep
           /\ IF InRange(Old.n, E.c)
              THEN LET a == Add(E.c, Old.lo)
                       b == ValueIn(W, Y, a)
                   IN /\ E.ok = 1 /\ SameExtent(Old, New) /\ SameMarks(Old, New)
                      /\ Shows(New, Y, Replace(W, a, IF Is("hit") THEN HitOf(Np, b) ELSE MissOf(Np, b)))
              ELSE E.ok = 0 /\ SameRec(Old, New)
TExpand == /\ Is("exp") /\ E.ok = 1
           /\ A("C05") => Extents(Old, New.lo, New.n, E.x, E.y, S, hd.tile) /\ Covers(Old, New)
           /\ LET ys == Layers(Old, Y, New.lo, New.n, E.v) IN
              /\ ly' = [ly EXCEPT ![E.m] = ys]
              /\ A("C05") => Shows(New, ys, WrittenIn(W, ys, New.lo, New.n, E.v))
           /\ A("C14") => New.trk = Old.trk /\ SameBag(New.chg, Shifted(Old, New.lo))
TIntegrate ==
  /\ Is("int") /\ E.ok = 1
  /\ A("C13") => MustCover(D, S, E.o, E.p, New) /\ NotBeyond(D, S, hd.tile, E.o, E.p, Old, New)
  /\ (A("C05") \/ A("C13")) => Covers(Old, New)
  /\ LET ys == Layers(Old, Y, New.lo, New.n, 0) IN
     /\ ly' = [ly EXCEPT ![E.m] = ys]
     /\ (A("C11") \/ A("C14")) =>
          LET v == TLCEval(CloudView(CloudRays(D, S, E.o, E.p, Np)))
              w == TLCEval(Written(New))
          IN /\ A("C11") =>
                  /\ \A a \in v.occMay \cup v.freeMay \cup DOMAIN w \cup DOMAIN W :
                       AbsIn(New, a) =>
                         CellRel(v, Np, hd.tol, a, ValueIn(W, ys, a), ValueIn(w, ys, a))
                  /\ \A a \in v.occMust \cup v.freeMust : AbsIn(New, a)
                  /\ Shows(New, ys, w)
             /\ A("C14") => MarksRel(v, Old, New)
TMarks == /\ E.ok = 1 /\ Keep /\ KeepContent(Old, New)
          /\ A("C14") =>
               \/ Is("trk") /\ New.trk = E.b /\ New.chg = Old.chg
               \/ Is("clr") /\ New.chg = <<>> /\ New.trk = Old.trk
               \/ Is("add") /\ SameBag(New.chg, Old.chg \o E.cs) /\ New.trk = Old.trk
TConvert == /\ E.ok = 1 /\ Keep /\ SameRec(Old, New)
            /\ (A("C01") \/ A("C15")) =>
                 \/ Is("cfp") /\ E.r \in Nearest(E.x, Scale(Old.lo, S), S)
                 \/ Is("pfc") /\ NearVec(E.r, Scale(Centre(E.c, Scale(Old.lo, S), S), 16), 2)
TClone == /\ Is("clone") /\ E.ok = 1 /\ ly' = [ly EXCEPT ![E.j] = ly[E.m]]
          /\ A("C16") => ms'[E.j] = Old /\ \A k \in IDs \ {E.j} : ms'[k] = ms[k]

Explained ==
  \/ Is("clone") /\ TClone /\ OccOK /\ FacadeOK
  \/ /\ \/ TNew \/ TNewDefault \/ TSet \/ TGet \/ TUpdate \/ TExpand \/ TIntegrate
        \/ (Is("trk") \/ Is("clr") \/ Is("add")) /\ TMarks
        \/ (Is("cfp") \/ Is("pfc")) /\ TConvert
     /\ FrameOK(E.m) /\ TileOK /\ OccOK /\ FacadeOK

TInit == /\ l \in StartSet /\ hd = <<>> /\ ms = <<>> /\ ly = <<>>
         /\ maps = NoMap /\ world = NoMap /\ marks = NoMap
TNext ==
  \/ l = 0 /\ UNCHANGED tvars
  \/ /\ l # 0 /\ l' = NextLine(l) /\ UNCHANGED mapvars
     /\ \/ THeader
        \/ /\ ~Is("bhist") /\ Has(E, "st") /\ AllReadable
           /\ hd' = hd
           /\ ms' = TLCEval([k \in IDs |-> StateOf(k)])
           /\ Explained
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
