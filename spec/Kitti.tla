------------------------------- MODULE Kitti --------------------------------
(***************************************************************************)
(* Reading KITTI recordings.  Two state machines: a reader that collects   *)
(* the bytes of one scan from an input that delivers them piecemeal, may   *)
(* interrupt, and may fail; and a reader of a whole directory, which lists *)
(* the files in whatever order the file system has them, sorts them by     *)
(* name, reads them one by one, and georeferences every pose to the first. *)
(* The operators stating what must come out are used for trace validation  *)
(* too.                                                                    *)
(***************************************************************************)
EXTENDS Lattice

CONSTANT ASPECTS
A(p) == p \in ASPECTS

-----------------------------------------------------------------------------
(* One scan: records of REC units, of which the last is dropped.           *)
WholeRecords(len, REC) == len % REC = 0
Records(s, REC) == LET rec(k) == SubSeq(s, (k - 1) * REC + 1, k * REC - 1)
                   IN [ k \in 1..(Len(s) \div REC) |-> rec(k) ]

VARIABLES src,     \* what the input still has
          buf,     \* what has been collected
          rphase,  \* "read", "ok", "err"
          scan     \* the parsed records
scanvars == <<src, buf, rphase, scan>>
ScanStart(s) == src = s /\ buf = <<>> /\ rphase = "read" /\ scan = <<>>
Deliver(n) == /\ rphase = "read" /\ n \in 1..Len(src)
              /\ buf' = buf \o SubSeq(src, 1, n)
              /\ src' = SubSeq(src, n + 1, Len(src))
              /\ UNCHANGED <<rphase, scan>>
Interrupted == rphase = "read" /\ UNCHANGED scanvars
InputFails == rphase = "read" /\ rphase' = "err" /\ UNCHANGED <<src, buf, scan>>
Eof(REC) == /\ rphase = "read" /\ src = <<>>
            /\ IF WholeRecords(Len(buf), REC)
               THEN rphase' = "ok" /\ scan' = Records(buf, REC)
               ELSE rphase' = "err" /\ scan' = scan
            /\ UNCHANGED <<src, buf>>

-----------------------------------------------------------------------------
(* A directory.  A file is [name |-> bytes, kind |-> ..., ...].            *)
RECURSIVE NameLess(_, _)
NameLess(a, b) == IF b = <<>> THEN FALSE
                  ELSE IF a = <<>> THEN TRUE
                  ELSE IF a[1] # b[1] THEN a[1] < b[1]
                  ELSE NameLess(Tail(a), Tail(b))
\* The files of a sequence in name order.
RECURSIVE InsertFile(_, _)
InsertFile(s, f) == IF s = <<>> THEN <<f>>
                    ELSE IF NameLess(f.name, s[1].name) THEN <<f>> \o s
                    ELSE <<s[1]>> \o InsertFile(Tail(s), f)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE InsertFile(Sorted(Tail(s)), s[1])
\* The same, for long listings (MCKitti checks that they agree).
FastSorted(s) == LET less(a, b) == NameLess(a.name, b.name) IN SortSeq(s, less)

Loadable(f, what) == (what = "clouds" /\ f.kind = "cloud") \/ (what = "poses" /\ f.kind = "pose")

VARIABLES listing, todo, out, origin, dphase
dirvars == <<listing, todo, out, origin, dphase>>
DirStart == listing = <<>> /\ todo = <<>> /\ out = <<>> /\ origin = <<>> /\ dphase = "start"
List(order) == /\ dphase = "start" /\ listing' = order /\ todo' = Sorted(order)
               /\ dphase' = "read" /\ UNCHANGED <<out, origin>>
Missing == dphase = "start" /\ dphase' = "err" /\ UNCHANGED <<listing, todo, out, origin>>
ReadFile(what) ==
  /\ dphase = "read" /\ todo # <<>>
  /\ IF ~Loadable(todo[1], what)
     THEN dphase' = "err" /\ out' = <<>> /\ UNCHANGED <<listing, todo, origin>>
     ELSE /\ origin' = IF origin = <<>> /\ what = "poses" THEN todo[1].v ELSE origin
          /\ out' = Append(out, IF what = "poses" THEN Sub(todo[1].v, origin') ELSE <<todo[1].id>>)
          /\ todo' = Tail(todo) /\ UNCHANGED <<listing, dphase>>
DirDone == dphase = "read" /\ todo = <<>> /\ dphase' = "ok" /\ UNCHANGED <<listing, todo, out, origin>>

-----------------------------------------------------------------------------
(* Positions: latitude, longitude in microdegrees, altitude in millimetres;*)
(* results in millimetres.                                                 *)

\* The length of one microdegree of longitude at whole degrees of latitude,
\* in nanometres: 40075160 m / 360000000 * cos(lat).
EastTable ==
  <<111319889, 111302934, 111252076, 111167329, 111048719, 110896283, 110710067,
     110490127, 110236531, 109949356, 109628690, 109274629, 108887282, 108466767,
     108013212, 107526756, 107007545, 106455739, 105871506, 105255023, 104606478,
     103926069, 103214004, 102470498, 101695779, 100890082, 100053653, 99186747,
     98289628, 97362569, 96405852, 95419769, 94404620, 93360714, 92288370,
     91187915, 90059682, 88904016, 87721270, 86511802, 85275982, 84014187,
     82726799, 81414213, 80076827, 78715048, 77329293, 75919982, 74487545,
     73032418, 71555045, 70055876, 68535367, 66993982, 65432189, 63850465,
     62249292, 60629157, 58990554, 57333981, 55659944, 53968953, 52261522,
     50538172, 48799427, 47045818, 45277878, 43496146, 41701164, 39893480,
     38073644, 36242211, 34399737, 32546786, 30683920, 28811707, 26930719,
     25041526, 23144706, 21240836, 19330496, 17414267, 15492734, 13566482,
     11636097, 9702168, 7765283, 5826033, 3885008, 1942800, 0>>
East(deg) == EastTable[Abs(deg) + 1]
\* Between the whole degrees, by the addition theorem and the series up to the
\* third power; d is the rest in tenths of a microradian, at most 87266.
Part(n, d) == RoundDiv((n \div 10000) * d + RoundDiv((n % 10000) * d, 10000), 1000)
EastBetween(deg, d) ==
  LET c == East(deg)
      s == East(90 - Abs(deg)) * Sgn(deg)
      p1 == Part(s, d)
      p2 == Part(Part(c, d), d) \div 2
      p3 == Part(Part(Part(s, d), d), d) \div 6
  IN c - p1 - p2 + p3
EastPer(lat) == LET deg == RoundDiv(lat, 1000000)
                IN EastBetween(deg, RoundDiv((lat - deg * 1000000) * 710, 4068))
NorthPer == 111133333   \* 40008000 m / 360000000
\* per * d, in millimetres, without leaving the range of TLC's integers.
Metres(per, d) == (per \div 1000) * (d \div 1000) + RoundDiv((per \div 1000) * (d % 1000), 1000)
                  + RoundDiv((per % 1000) * (d \div 1000), 1000)
\* slack: 3 mm for rounding, and what the series (2.5 ppm), or without it f32
\* (0.25 ppm), leave open
\* With u = 1000, positions in metres of angles in millidegrees.
PositionIn(u, t, v, org) ==
  LET dd == Sub(v, org)
      d == << dd[1] \div u, dd[2] \div u, dd[3] \div u >>
      e == Metres(EastPer(org[1]), d[2])
      n == Metres(NorthPer, d[1])
  IN /\ Near(t[1], e, 3 + Abs(e) \div (IF org[1] % 1000000 = 0 THEN 4000000 ELSE 400000)
                      + (IF Abs(org[1]) > 85000000 THEN Abs(d[2]) \div 1000 ELSE 0))
     /\ Near(t[2], n, 3 + Abs(n) \div 4000000)
     /\ Near(t[3], d[3], 2 + Abs(d[3]) \div 4000000)
PositionRel(t, v, org) == PositionIn(1, t, v, org)

\* Rotations by eighth turns and a rest, in ten-thousandths.
Mul4(a, b) == RoundDiv(a * b, 10000)
Cos8(k) == CASE k % 8 = 0 -> 10000 [] k % 8 \in {1, 7} -> 7071 [] k % 8 \in {2, 6} -> 0
             [] k % 8 \in {3, 5} -> -7071 [] k % 8 = 4 -> -10000
Sin8(k) == Cos8(k - 2)
CosRest(e) == LET e2 == Mul4(e, e) IN 10000 - RoundDiv(e2, 2) + RoundDiv(Mul4(e2, e2), 24)
SinRest(e) == LET e2 == Mul4(e, e)
                  e3 == Mul4(e2, e)
              IN e - RoundDiv(e3, 6) + RoundDiv(Mul4(e3, e2), 120)
CosOf(k, e) == Mul4(Cos8(k), CosRest(e)) - Mul4(Sin8(k), SinRest(e))
SinOf(k, e) == Mul4(Sin8(k), CosRest(e)) + Mul4(Cos8(k), SinRest(e))
\* Columns of Rz(yaw) * Ry(pitch) * Rx(roll).
Rotation(ang, eps) ==
  LET cr == CosOf(ang[1], eps[1])  sr == SinOf(ang[1], eps[1])
      cp == CosOf(ang[2], eps[2])  sp == SinOf(ang[2], eps[2])
      cy == CosOf(ang[3], eps[3])  sy == SinOf(ang[3], eps[3])
  IN << << Mul4(cy, cp), Mul4(sy, cp), -sp >>,
        << Mul4(Mul4(cy, sp), sr) - Mul4(sy, cr), Mul4(Mul4(sy, sp), sr) + Mul4(cy, cr), Mul4(cp, sr) >>,
        << Mul4(Mul4(cy, sp), cr) + Mul4(sy, sr), Mul4(Mul4(sy, sp), cr) - Mul4(cy, sr), Mul4(cp, cr) >> >>
RotationRel(rot, ang, eps) ==
  LET R == Rotation(ang, eps)
  IN \A c \in 1..3, i \in 1..3 : Near(rot[c][i], R[c][i], 8)

-----------------------------------------------------------------------------
(* Recorded reads.                                                         *)

\* C19: words are logged as pairs of 16-bit halves.
Flat(rec) == << rec[1][1], rec[1][2], rec[2][1], rec[2][2], rec[3][1], rec[3][2] >>
CloudReadRel(e) ==
  A("C19") =>
    /\ ~("failed" \in DOMAIN e)
    /\ IF e.fail = 0 /\ e.tb = 0 /\ WholeRecords(Len(e.w), 4)
       THEN /\ e.ok = 1
            /\ LET r == Records(e.w, 4)
               IN e.n = Len(r) /\ Len(e.out) = Len(r) /\ \A k \in 1..Len(r) : e.out[k] = Flat(r[k])
       ELSE e.ok = 0

\* A scan too long to be written down: point k holds the words of record k, for
\* every k at once.
BigReadRel(e) ==
  A("C19") =>
    /\ ~("failed" \in DOMAIN e)
    /\ IF e.tb = 0 THEN e.ok = 1 /\ e.n = e.records /\ e.runs = << <<0, e.records, 0>> >>
       ELSE e.ok = 0

\* C20
RECURSIVE CloudPoints(_, _)
CloudPoints(id, np) == IF np = 0 THEN <<>> ELSE CloudPoints(id, np - 1) \o <<id, np - 1, -1>>
DirReadRel(e) ==
  A("C20") =>
    /\ ~("failed" \in DOMAIN e)
    /\ IF e.missing = 1 \/ \E k \in 1..Len(e.files) : ~Loadable(e.files[k], e.what)
       THEN e.ok = 0
       ELSE /\ e.ok = 1 /\ Len(e.out) = Len(e.files)
            /\ LET s == TLCEval(FastSorted(e.files)) IN
               \A k \in 1..Len(s) :
                 IF e.what = "clouds" THEN e.out[k] = CloudPoints(s[k].id, s[k].np)
                 ELSE /\ PositionRel(e.out[k], s[k].v, s[1].v)
                      /\ Near(e.out[k][4], s[k].yaw, 2) /\ Near(e.out[k][5], 0, 1)

\* C21
PoseReadRel(e) ==
  A("C21") =>
    /\ ~("failed" \in DOMAIN e)
    /\ IF e.fail = 1 \/ e.nf < 6 \/ (e.bad >= 0 /\ e.bad < 6) THEN e.ok = 0
       ELSE /\ e.ok = 1
            /\ IF e.has = 1
               THEN PositionIn(e.u, e.t, e.v, e.org) /\ NearVec(e.back, e.org, 0)
               ELSE e.t = <<0, 0, 0>> /\ NearVec(e.back, e.v, 0)
            /\ RotationRel(e.rot, e.ang, e.eps)

KittiRel(e) == CASE e.op = "kcloud" -> CloudReadRel(e)
                 [] e.op = "kbig"   -> BigReadRel(e)
                 [] e.op = "kdir"   -> DirReadRel(e)
                 [] e.op = "kpose"  -> PoseReadRel(e)
                 [] OTHER -> FALSE
=============================================================================
