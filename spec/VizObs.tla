------------------------------ MODULE VizObs -------------------------------
(***************************************************************************)
(* What a user of the visualiser sees, frame by frame: `n' scans have been *)
(* handed to the background thread and the frame shows the map as it was   *)
(* after the first `k' integrations.  A scan is handed over only when the  *)
(* previous one has been integrated and taken over, one per frame.         *)
(***************************************************************************)
EXTENDS Integers

VARIABLES n, k
obsvars == <<n, k>>

ObsInit == n = 0 /\ k = 0
\* (An implementation may show a result before it hands over the next scan.)
Show   == k = n - 1 /\ k' = n /\ n' = n
Launch == k \in {n - 1, n} /\ k >= 0 /\ n' = n + 1 /\ k' = n
Idle   == UNCHANGED obsvars
ObsNext == Show \/ Launch \/ Idle
ObsSpec == ObsInit /\ [][ObsNext]_obsvars
=============================================================================
