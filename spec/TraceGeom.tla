----------------------------- MODULE TraceGeom -----------------------------
(* Recorded single calls of the geometry API.                              *)
EXTENDS GeomRules, TraceBase
VARIABLE l
TInit == l \in StartSet
TNext == \/ l = 0 /\ UNCHANGED l
         \/ l # 0 /\ GeomRel(Trace[l]) = TRUE /\ l' = NextLine(l)
TSpec == TInit /\ [][TNext]_l
=============================================================================
