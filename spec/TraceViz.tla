------------------------------ MODULE TraceViz -----------------------------
(***************************************************************************)
(* Recorded runs of the visualiser's code, one per schedule.  Each run is  *)
(* a list of frames: where the frame marker stood (which names the scan    *)
(* that is next) and the points drawn, in thousandths of a cell.  Every    *)
(* frame must be a step of VizObs and show the map that the rules of the   *)
(* occupancy update (GridMap) give for the scans integrated by then.       *)
(***************************************************************************)
EXTENDS GridMap, TraceBase

VARIABLES l,    \* the next line of the trace
          hd,   \* the scene: [S, N, laps, pl, vw] with pl[k] the place and vw[k] the
          \*   view of scan k
          f,    \* the next frame of this run; 0 between runs
          n, k, \* VizObs
          val   \* the occupied cells that must and may be seen, after k and n integrations
tvars == <<l, hd, f, n, k, val, mapvars>>
Obs == INSTANCE VizObs

E == Trace[l]
NP(S) == <<847298, -405465, -2000028, 3511031, 0, 1200 * S>>   \* 60 m at 0.1 m, in half sub-units

\* Quarter turns about x, then y, then z.
C4(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
S4(q) == C4(q - 1)
Turned(a, p) ==
  LET x1 == p[1]
      y1 == C4(a[1]) * p[2] - S4(a[1]) * p[3]
      z1 == S4(a[1]) * p[2] + C4(a[1]) * p[3]
      x2 == C4(a[2]) * x1 + S4(a[2]) * z1
      z2 == C4(a[2]) * z1 - S4(a[2]) * x1
  IN << C4(a[3]) * x2 - S4(a[3]) * y1, S4(a[3]) * x2 + C4(a[3]) * y1, z2 >>

\* Scans are placed relative to the first one.
Place(e, s) == Sub(e.scans[s].pos, e.scans[1].pos)
World(e, s) == LET sc == e.scans[s] IN
  [j \in 1..Len(sc.p) |-> Add(Turned(sc.ang, sc.p[j]), Place(e, s))]
\* Rounding of the rotated points may turn a tie of two borders either way.
SceneView(e, s) ==
  LET o == Place(e, s)
      pts == World(e, s)
  IN TLCEval(CloudView({ [D |-> 3, S |-> e.S, m |-> Zero(3), o |-> o, e |-> pts[j], ml |-> NP(e.S)[6],
                          tt |-> 1, et |-> 0] : j \in 1..Len(pts) }))

\* Values are known up to an interval.
Update(v, np, vals) ==
  LET touched == DOMAIN vals \cup v.occMay \cup v.freeMay
      old(c) == IF c \in DOMAIN vals THEN vals[c] ELSE <<0, 0>>
      new(c) == LET b == old(c)
                    cs == (IF HitAllowed(v, c) THEN {<<HitOf(np, b[1]), HitOf(np, b[2])>>} ELSE {})
                          \cup (IF MissAllowed(v, c) THEN {<<MissOf(np, b[1]), MissOf(np, b[2])>>} ELSE {})
                          \cup (IF NoneAllowed(v, c) THEN {b} ELSE {})
                    L == { x[1] : x \in cs }
                    H == { x[2] : x \in cs }
                IN << CHOOSE x \in L : \A y \in L : x <= y, CHOOSE x \in H : \A y \in H : x >= y >>
  IN TLCEval([c \in touched |-> new(c)])
ScanNo(m) == 1 + ((m - 1) % hd.N)
MustSee(vals) == { c \in DOMAIN vals : vals[c][1] > 0 }
MaySee(vals)  == { c \in DOMAIN vals : vals[c][2] > 0 }

\* The points of a frame, as cells.
CentreOfCell(p) == \A i \in 1..3 : Near(p[i], 1000 * RoundDiv(p[i], 1000), 5)
CellOfPoint(p) == << RoundDiv(p[1], 1000), RoundDiv(p[2], 1000), RoundDiv(p[3], 1000) >>
Shows(fr, vals) ==
  LET cells == { CellOfPoint(fr.p[j]) : j \in 1..Len(fr.p) }
  IN /\ \A j \in 1..Len(fr.p) : CentreOfCell(fr.p[j])
     /\ Cardinality(cells) = Len(fr.p)
     /\ MustSee(vals) \subseteq cells /\ cells \subseteq MaySee(vals)

MarkerAt(fr, m) ==   \* the marker stands at the scan that follows m hand-overs
  /\ Len(fr.at) = 3
  /\ NearVec(Scale(fr.at, hd.S), Scale(hd.pl[1 + (m % hd.N)], 1000), 5 * hd.S)

TScene == /\ E.op = "viz" /\ f = 0
          /\ l' = NextLine(l)
          /\ hd' = [S |-> E.S, N |-> Len(E.scans), laps |-> E.laps,
                    pl |-> TLCEval([s \in 1..Len(E.scans) |-> Place(E, s)]),
                    vw |-> TLCEval([s \in 1..Len(E.scans) |-> SceneView(E, s)])]
          /\ UNCHANGED <<f, n, k>>
          /\ val' = [m \in {} |-> 0]
\* The map after 0, 1, ... integrations is computed once per scene.
Tabled == hd # <<>> /\ DOMAIN val = 0..(hd.N * hd.laps + 1)
TTable == /\ E.op = "run" /\ f = 0 /\ ~Tabled
          /\ LET next == Cardinality(DOMAIN val)
                 made == IF next = 0 THEN <<>>
                         ELSE Update(hd.vw[ScanNo(next)], NP(hd.S), val[next - 1])
             IN val' = [m \in 0..next |-> IF m = next THEN made ELSE val[m]]
          /\ UNCHANGED <<l, hd, f, n, k>>
TBegin == /\ E.op = "run" /\ f = 0 /\ Tabled /\ E.end = "ok"
          /\ f' = 1 /\ n' = 0 /\ k' = 0 /\ UNCHANGED <<l, hd, val>>
TFrame == /\ f > 0 /\ f <= Len(E.fr)
          /\ Obs!ObsNext
          /\ n' \in DOMAIN val /\ MarkerAt(E.fr[f], n') /\ Shows(E.fr[f], val[k'])
          /\ f' = f + 1 /\ UNCHANGED <<l, hd, val>>
TEnd == /\ f > 0 /\ f = Len(E.fr) + 1 /\ n = hd.N * hd.laps + 1
        /\ f' = 0 /\ l' = NextLine(l) /\ UNCHANGED <<hd, n, k, val>>

TInit == /\ l \in StartSet /\ hd = <<>> /\ f = 0 /\ n = 0 /\ k = 0 /\ val = [m \in {} |-> 0]
         /\ maps = NoMap /\ world = NoMap /\ marks = NoMap
TNext == \/ l = 0 /\ UNCHANGED tvars
         \/ l # 0 /\ UNCHANGED mapvars /\ (TScene \/ TTable \/ TBegin \/ TFrame \/ TEnd)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
