------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Recorded histories of grid maps and occupancy grid maps, checked        *)
(* against the relations of GridMap.  After every call the driver logs the *)
(* full projected state of every map of the history, so each event is one  *)
(* step, and maps that the call did not name must not have changed.        *)
(***************************************************************************)
EXTENDS GridMap, TraceBase

VARIABLES l,    \* the next line of the trace
          hd,   \* the header of this history
          ms    \* id -> projected map record
tvars == <<l, hd, ms, mapvars>>

E == Trace[l]
IDs == 0..2
D == hd.D
S == hd.S
\* At a resolution that binary cannot represent, a distance that equals the
\* range limit may come out on either side of it.
Np == Append(hd.np, IF hd.dyadic = 1 \/ hd.np[6] = NoLimit THEN 0 ELSE 1 + (hd.np[6] * hd.np[6]) \div 100000)

\* A logged record is readable if its extent is a whole number of cells at the
\* position of a whole cell and every cell inside could be read.
Whole(x) == Near(x, 1000 * RoundDiv(x, 1000), 1)
Readable(r) == /\ Has(r, "d")
               /\ \A i \in 1..D : Whole(r.lo[i]) /\ Whole(r.hi[i])
               /\ Near(r.res, 1000000, 1)
Cells3(v) == LET f(i) == RoundDiv(v[i], 1000) IN Vec(f, D)
Project(r) == LET lo == Cells3(r.lo) IN
  [lo |-> lo, n |-> Sub(Cells3(r.hi), lo), d |-> r.d, trk |-> r.trk, chg |-> r.chg, oc |-> r.oc,
   tile |-> r.tile]
StateOf(k) == IF \E j \in 1..Len(E.st) : E.st[j].id = k
              THEN Project(CHOOSE r \in Range(E.st) : r.id = k) ELSE NoMap
AllReadable == \A j \in 1..Len(E.st) :
  Readable(E.st[j]) /\ (Has(E.st[j], "in") => Readable(E.st[j].in))

Old == ms[E.m]
Is(op) == E.op = op
\* C16: a call changes no map but the one it names.
FrameOK(k) == \A j \in IDs \ {k} : A("C16") => ms'[j] = ms[j]

\* C12: occupied exactly when the value is above the threshold.
OccOK == A("C12") =>
  \A k \in IDs : ms'[k] # NoMap /\ ms'[k].oc # <<>> =>
     /\ Len(ms'[k].oc) = Len(ms'[k].d)
     /\ \A j \in 1..Len(ms'[k].oc) : OccupiedRel(Np, hd.tol, ms'[k].d[j], ms'[k].oc[j])
\* C15: the occupancy map shows exactly its grid, and a call on it does exactly
\* what the same call does to a grid and noise model equal to those it holds
\* (the twin of the driver).
FacadeOK == A("C15") =>
  /\ \A j \in 1..Len(E.st) : Has(E.st[j], "in") =>
       LET a == E.st[j]
           b == a.in
       IN /\ a.lo = b.lo /\ a.hi = b.hi /\ a.res = b.res /\ a.trk = b.trk
          /\ a.chg = b.chg /\ a.d = b.d /\ a.oc = b.oc
  /\ Has(E, "tw") =>
       LET a == CHOOSE x \in Range(E.st) : x.id = E.m
           t == E.tw
           b == t.st[1]
       IN /\ t.ok = E.ok
          /\ Has(E, "r") => Has(t, "r") /\ t.r = E.r
          /\ a.lo = b.lo /\ a.hi = b.hi /\ a.res = b.res /\ a.trk = b.trk /\ a.tile = b.tile
          /\ a.d = b.d /\ a.oc = b.oc /\ SameBag(a.chg, b.chg)
\* A map's tile size is the one it was built with.
TileOK(k) == (A("C04") \/ A("C05") \/ A("C15")) => ms'[k] = NoMap \/ ms'[k].tile = hd.tile

Common(k) == FrameOK(k) /\ TileOK(k) /\ OccOK /\ FacadeOK
New == ms'[E.m]

THeader == /\ Is("hist") /\ hd' = E /\ ms' = [k \in IDs |-> NoMap]

\* Constructors.
Same(old, new) == SameMap(old, new)
FreshRel(new, lo, n, v) ==
  A("C04") => /\ new.lo = lo /\ new.n = n /\ Len(new.d) = Prod(n)
              /\ \A k \in 1..Len(new.d) : new.d[k] = v
              /\ new.trk = 0 /\ new.chg = <<>>
TNew == /\ Is("new") /\ E.ok = 1 /\ FreshRel(New, E.lo, Sub(E.hi, E.lo), E.v)
TNewDefault == /\ Is("newd") /\ E.ok = 1 /\ FreshRel(New, Zero(D), Zero(D), 0)
TFromArray == /\ Is("arr") /\ E.ok = 1
              /\ A("C04") => New.lo = E.lo /\ New.n = E.n /\ New.d = E.v
                             /\ New.trk = 0 /\ New.chg = <<>>

\* Cell access.
TSet == Is("set") /\ SetRel(Old, New, E.c, E.v, E.ok)
TGet == Is("get") /\ GetRel(Old, New, E.c, E.r, E.ok)
THit == (Is("hit") \/ Is("mis")) /\ HitRel(Old, New, E.c, Is("hit"), Np, hd.tol, E.ok)
TCellFromPoint == /\ Is("cfp") /\ E.ok = 1 /\ Same(Old, New)
                  /\ (A("C01") \/ A("C15")) => E.r \in Nearest(E.x, Scale(Old.lo, S), S)
TPointFromCell == /\ Is("pfc") /\ E.ok = 1 /\ Same(Old, New)
                  /\ (A("C01") \/ A("C15")) =>
                        NearVec(E.r, Scale(Centre(E.c, Scale(Old.lo, S), S), 16), 2)

\* Growth and integration.
TExpand == Is("exp") /\ ExpandRel(Old, New, E.x, E.y, E.v, S, hd.tile, E.ok)
TIntegrate == Is("int") /\ IntegrateRel(Old, New, E.o, E.p, D, S, hd.tile, Np, hd.tol, E.ok)

\* Change tracking.
KeepData == SameExtent(Old, New) /\ Old.d = New.d
TTrack == Is("trk") /\ E.ok = 1 /\ KeepData /\ (A("C14") => New.trk = E.b /\ New.chg = Old.chg)
TClear == Is("clr") /\ E.ok = 1 /\ KeepData /\ (A("C14") => New.chg = <<>> /\ New.trk = Old.trk)
TAdd   == Is("add") /\ E.ok = 1 /\ KeepData
          /\ (A("C14") => SameBag(New.chg, Old.chg \o E.cs) /\ New.trk = Old.trk)

\* Cloning.
TClone == /\ Is("clone") /\ E.ok = 1
          /\ A("C16") => ms'[E.j] = Old /\ \A k \in IDs \ {E.j} : ms'[k] = ms[k]

Explained ==
  \/ Is("clone") /\ TClone /\ OccOK /\ FacadeOK
  \/ /\ TNew \/ TNewDefault \/ TFromArray \/ TSet \/ TGet \/ THit \/ TCellFromPoint
        \/ TPointFromCell \/ TExpand \/ TIntegrate \/ TTrack \/ TClear \/ TAdd
     /\ Common(E.m)

TInit == /\ l \in StartSet /\ hd = <<>> /\ ms = <<>>
         /\ maps = NoMap /\ world = NoMap /\ marks = NoMap
TNext ==
  \/ l = 0 /\ UNCHANGED tvars
  \/ /\ l # 0 /\ l' = NextLine(l) /\ UNCHANGED mapvars
     /\ \/ THeader
        \/ /\ ~Is("hist") /\ Has(E, "st") /\ AllReadable
           /\ hd' = hd
           /\ ms' = TLCEval([k \in IDs |-> StateOf(k)])
           /\ Explained
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
