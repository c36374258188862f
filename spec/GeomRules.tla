----------------------------- MODULE GeomRules -----------------------------
(***************************************************************************)
(* What single calls of the geometry API must return: conversions between  *)
(* points and cells, box constructors and box algebra, rays, whole-cloud   *)
(* ray casting, point cloud containers and transforms.  `e' is a recorded  *)
(* event; results in sixteenths of a sub-unit carry the suffix tolerance F.*)
(***************************************************************************)
EXTENDS RayRules
CONSTANT ASPECTS
A(p) == p \in ASPECTS

F == 1
Box16(b) == <<Scale(b.mn, 16), Scale(b.mx, 16)>>
IsBox(got, b) == Len(got) = 2 /\ NearVec(got[1], Scale(b.mn, 16), F)
                              /\ NearVec(got[2], Scale(b.mx, 16), F)
IsCells(got, b) == Len(got) = 2 /\ got[1] = b.mn /\ got[2] = b.mx

\* C01: centre of a cell, cell of a point, and back again.
ConvRel(e) ==
  A("C01") =>
    /\ Len(e.got) = 3
    /\ NearVec(e.got[1], Scale(Centre(e.c, e.off, e.S), 16), F)
    /\ e.got[2] \in Nearest(e.p, e.off, e.S)
    /\ e.got[3] = e.c
    \* the same picture, larger
    /\ \A k \in 1..Len(e.far) :
          NearVec(e.far[k], Scale(Centre(e.c, e.off, e.S), 16), F)

\* C02/C03: one box given by its corners.
BoxRel(e) ==
  LET b == Box(e.mn, e.mx)
      cb == Box(e.cb[1], e.cb[2])
  IN /\ A("C03") => e.made = (IF BoxOK(e.mn, e.mx) THEN 1 ELSE 0)
     /\ (A("C02") /\ BoxOK(e.mn, e.mx)) =>
          /\ e.made = 1
          /\ IsBox(e.orig, b)
          /\ IsBox(e.disc, Discretized(b, e.S, e.ex = 1))
          /\ Len(e.cb) = 2
          /\ cb.mn \in Nearest(b.mn, Zero(e.D), e.S)
          /\ cb.mx \in Nearest(b.mx, Zero(e.D), e.S)
          /\ IsCells(e.cbt, Tiled(cb, e.tile))
          /\ IsBox(e.back, Box(Scale(cb.mn, e.S), Scale(cb.mx, e.S)))

\* C02: boxes made from cell ranges and sizes; tile rounding is idempotent.
CellBoxRel(e) ==
  LET b == Box(e.mn, e.mx)
      w == Box(Scale(e.mn, e.S), Scale(e.mx, e.S))
  IN /\ A("C03") => e.made = (IF BoxOK(e.mn, e.mx) THEN 1 ELSE 0)
     /\ A("C02") => /\ IsCells(e.disc, Tiled(b, e.tile))
                    /\ IsCells(e.disc2, Tiled(b, e.tile))
                    \* rounding commutes with moving by whole tiles
                    /\ \A k \in 1..Len(e.far) : IsCells(e.far[k], Tiled(b, e.tile))
                    \* and with making cells and tiles larger
                    /\ \A k \in 1..Len(e.big) : IsCells(e.big[k], Tiled(b, e.tile))
                    /\ IsBox(e.fcb, w) /\ IsBox(e.fcbn, w)
                    /\ IsBox(e.fsc, w) /\ IsBox(e.fscn, w)

\* C03: union and intersection of two boxes, both ways round.
Box2Rel(e) ==
  LET a == Box(e.amn, e.amx)
      b == Box(e.bmn, e.bmx)
  IN A("C03") => /\ IsBox(e.enc, Enclosing(a, b)) /\ IsBox(e.cne, Enclosing(b, a))
                 /\ IsBox(e.ovl, Overlapping(a, b)) /\ IsBox(e.lvo, Overlapping(b, a))

\* C24: equality of boxes and of cell ranges; tolerances per coordinate, the
\* absolute one in half sub-units, the relative one in 64ths of the larger
\* magnitude.
WithinAbs(a, b, ek) == \A i \in Dims(a) : 2 * Abs(a[i] - b[i]) <= ek
WithinRel(a, b, ek, rk) == \A i \in Dims(a) :
  \/ 2 * Abs(a[i] - b[i]) <= ek
  \/ 64 * Abs(a[i] - b[i]) <= rk * Max2(Abs(a[i]), Abs(b[i]))
EqRel(e) ==
  A("C24") =>
    LET one(t) == IF t THEN 1 ELSE 0
        same == e.amn = e.bmn /\ e.amx = e.bmx
        near == WithinAbs(e.amn, e.bmn, e.ek) /\ WithinAbs(e.amx, e.bmx, e.ek)
        rel(k) == WithinRel(e.amn, e.bmn, k, e.rk) /\ WithinRel(e.amx, e.bmx, k, e.rk)
    IN e.r = << one(same), one(~same), 1, one(same), one(~same), 1,
                one(near), one(~near), one(rel(e.ek)), one(~rel(e.ek)), one(rel(0)),
                one(same), one(same) >>

\* C24: literals hold the coordinates they list; empty boxes lie at the origin.
LitRel(e) ==
  A("C24") =>
    /\ ~("failed" \in DOMAIN e)
    /\ NearVec(e.pl, Scale(e.p, 16), F) /\ IsBox(e.bl, Box(e.p, e.q))
    /\ e.cl = e.p /\ IsCells(e.rl, Box(e.p, e.q))
    /\ IsBox(e.eb, EmptyBox(e.D)) /\ IsCells(e.ec, EmptyBox(e.D))

\* C07-C09: one ray.
RayRel(e) ==
  /\ ~("failed" \in DOMAIN e)
  /\ A("C07") => ShapeOK(e, e.ray, e.end)
  /\ A("C08") => GeometryOK(e, e.ray, e.end)
  /\ A("C09") => RangeOK(e, e.ray, e.end)

\* C10: a whole cloud at once.
SetOf(s) == { s[k] : k \in 1..Len(s) }
RaysRel(e) ==
  /\ ~("failed" \in DOMAIN e)
  /\ A("C10") =>
       LET ends  == UNION { SetOf(e.each[k].end) : k \in 1..Len(e.each) }
           cells == UNION { SetOf(e.each[k].ray) : k \in 1..Len(e.each) }
           v == TLCEval(CloudView({ [D |-> e.D, S |-> e.S, m |-> e.m, o |-> e.o, e |-> e.p[k],
                                     ml |-> e.ml, tt |-> 0, et |-> 0] : k \in 1..Len(e.p) }))
           occ == SetOf(e.occ)
           free == SetOf(e.free)
       IN /\ occ = ends
          /\ free = cells \ ends
          /\ SetOf(e.rocc) = occ /\ SetOf(e.rfree) = free
          /\ v.occMust \subseteq occ /\ occ \subseteq v.occMay
          /\ (v.freeMust \ occ) \subseteq free
          /\ free \subseteq v.freeMay \ occ

\* C17: point clouds keep their points, in order, and know their bounds.
CloudRel(e) ==
  A("C17") =>
    /\ ~("failed" \in DOMAIN e)
    /\ e.n = Len(e.p) /\ e.n2 = Len(e.p)
    /\ \A q \in { e.it, e.it2, e.it3 } :
         Len(q) = Len(e.p) /\ \A k \in 1..Len(q) : NearVec(q[k], Scale(e.p[k], 16), F)
    /\ IsBox(e.b, CloudBox(e.p, e.D))

\* C18: an affine transform moves every point and leaves the original alone.
\* t is row-major 3x4; the linear part is over den, the offset in sub-units.
\* The result is den times the moved point.
Moved3(t, den, p) ==
  LET f(i) == t[4*i-3] * p[1] + t[4*i-2] * p[2] + t[4*i-1] * p[3] + den * t[4*i]
  IN <<f(1), f(2), f(3)>>
XfRel(e) ==
  A("C18") =>
    /\ ~("failed" \in DOMAIN e)
    /\ e.n = Len(e.p) /\ Len(e.after) = e.n /\ Len(e.before) = e.n
    /\ \A k \in 1..e.n : /\ NearVec(e.before[k], Scale(e.p[k], 16), F)
                         /\ NearVec(Scale(e.after[k], e.den),
                                 Scale(Moved3(e.t, e.den, e.p[k]), 16), F * e.den)

\* C04: the named map types have the dimension and the value type they say.
AliasRel(e) ==
  A("C04") => \A k \in 1..Len(e.v) :
    <<e.v[k].name, e.v[k].dim, e.v[k].ty>> \in
      { <<"GridMap2f", 2, "f32">>, <<"GridMap2i", 2, "i32">>, <<"GridMap2b", 2, "bool">>,
        <<"GridMap3f", 3, "f32">>, <<"GridMap3i", 3, "i32">>, <<"GridMap3b", 3, "bool">> }

\* A map whose extent need not be aligned with the lattice: it is made, written,
\* cloned, and then the clone and the original are written.  e.st holds what a
\* reader sees: fresh, written, the clone, the original and the clone at the end.
Put(d, n, c, v) == [d EXCEPT ![Index(n, c)] = v]
UmapRel(e) ==
  LET s(k) == e.st[k]
      Bag(a, b) == Len(a) = Len(b) /\ \A x \in { a[k] : k \in 1..Len(a) } \cup { b[k] : k \in 1..Len(b) } :
                     Cardinality({ k \in 1..Len(a) : a[k] = x }) = Cardinality({ k \in 1..Len(b) : b[k] = x })
      like(a, b) == a.b = b.b /\ a.res = b.res /\ a.tile = b.tile
      d0 == TLCEval([k \in 1..Prod(e.n) |-> e.v[1]])
      d1 == TLCEval(Put(d0, e.n, e.c1, e.v[2]))
  IN /\ ~("failed" \in DOMAIN e)
     /\ e.n \in Nearest(Sub(e.y, e.x), Zero(e.D), e.S)
     /\ (A("C04") \/ A("C15")) =>
          /\ s(1).d = d0 /\ s(2).d = d1
          /\ s(1).trk = 0 /\ s(1).chg = <<>>
          /\ \A k \in 1..5 : IsBox(s(k).b, Box(e.x, e.y)) /\ Near(s(k).res, 1000000, 1) /\ s(k).tile = e.tile
     /\ A("C06") => \A k \in 1..5 : \A j \in 1..Len(s(k).out) : s(k).out[j] = 0
     /\ (A("C14") \/ A("C15")) => s(2).trk = 1 /\ Bag(s(2).chg, <<e.c2, e.c1, e.c2>>)
     /\ (A("C01") \/ A("C15")) => e.f1[1] \in Nearest(e.q, e.x, e.S) /\ e.f1[3] = e.c3
                                  /\ NearVec(e.f1[2], Scale(Centre(e.c2, e.x, e.S), 16), F)
     /\ A("C16") => /\ s(3) = s(2) /\ e.f2 = e.f1
                    /\ like(s(4), s(2)) /\ s(4).trk = s(2).trk /\ s(4).d = Put(s(2).d, e.n, e.c3, e.v[4])
                    /\ Bag(s(4).chg, s(2).chg \o <<e.c3>>)
                    /\ like(s(5), s(2)) /\ s(5).trk = 0 /\ s(5).chg = <<>>
                    /\ s(5).d = Put(s(2).d, e.n, e.c2, e.v[3])

GeomRel(e) == CASE e.op = "conv"  -> ConvRel(e)
                [] e.op = "box"   -> BoxRel(e)
                [] e.op = "cbox"  -> CellBoxRel(e)
                [] e.op = "box2"  -> Box2Rel(e)
                [] e.op = "eq"    -> EqRel(e)
                [] e.op = "lit"   -> LitRel(e)
                [] e.op = "ray"   -> RayRel(e)
                [] e.op = "rays"  -> RaysRel(e)
                [] e.op = "cloud" -> CloudRel(e)
                [] e.op = "xf"    -> XfRel(e)
                [] e.op = "umap"  -> UmapRel(e)
                [] e.op = "aliases" -> AliasRel(e)
                [] OTHER -> FALSE
=============================================================================
