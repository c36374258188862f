----------------------------- MODULE TraceKitti -----------------------------
(* Recorded reads of KITTI scans, directories and poses.                   *)
EXTENDS Kitti, TraceBase
VARIABLE l
idle == UNCHANGED <<scanvars, dirvars>>
TInit == l \in StartSet /\ ScanStart(<<>>) /\ DirStart
TNext == \/ l = 0 /\ UNCHANGED l /\ idle
         \/ l # 0 /\ KittiRel(Trace[l]) = TRUE /\ l' = NextLine(l) /\ idle
TSpec == TInit /\ [][TNext]_<<l, scanvars, dirvars>>
=============================================================================
