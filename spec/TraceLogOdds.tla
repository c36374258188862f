---------------------------- MODULE TraceLogOdds ----------------------------
(* Recorded conversions between probabilities and log-odds.                *)
EXTENDS LogOdds, TraceBase
VARIABLE l
TInit == l \in StartSet /\ Even
TNext == \/ l = 0 /\ UNCHANGED l /\ UNCHANGED lovars
         \/ l # 0 /\ LoRel(Trace[l]) = TRUE /\ l' = NextLine(l) /\ UNCHANGED lovars
TSpec == TInit /\ [][TNext]_<<l, lovars>>
=============================================================================
