------------------------------- MODULE MCRay -------------------------------
(* Exhaustive instances of RayCast: every origin, end and range limit of a *)
(* small lattice.                                                          *)
EXTENDS RayCast, TLC, Json
CONSTANTS DIM, SUB, SPAN, LIMITS, EMIT
V(f) == IF DIM = 2 THEN <<f[1], f[2]>> ELSE <<f[1], f[2], f[3]>>
Coords == [1..DIM -> 0..SPAN]
Rays == { [D |-> DIM, S |-> SUB, m |-> Zero(DIM), o |-> V(a), e |-> V(b),
           ml |-> l, tt |-> 0, et |-> 0] : a \in Coords, b \in Coords, l \in LIMITS }
Init == \E r \in Rays : Start(r)
Next == RayNext \/ (Finished /\ UNCHANGED rayvars)
Spec == Init /\ [][Next]_rayvars /\ WF_rayvars(RayNext)
\* The step-by-step walk and the three acceptance operators used for trace
\* validation agree: everything the walk produces is accepted.
AcceptInv == Finished => RayOK(ray, path, IF phase = "hit" THEN <<ec>> ELSE <<>>)
\* ... and the set view contains the walk.
ViewInv == Finished =>
  LET v == RayView(ray)
      P == { path[j] : j \in 1..Len(path) }
  IN /\ P \subseteq v.freeMay
     /\ v.freeMust \subseteq P
     /\ phase = "hit" => ec \in v.endMay
     /\ phase = "cut" => ec \notin v.endMust
\* Prints the rays of this instance as a script for the real code.
Emit == (EMIT /\ phase # "walk") => PrintT(<<"RAY", ray.o, ray.e, ray.ml>>)
=============================================================================
