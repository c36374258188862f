----------------------------- MODULE MCLogOdds ------------------------------
EXTENDS LogOdds
CONSTANTS MAX2, MAX3
Init == Even
Next == LoNext
Spec == Init /\ [][Next]_lovars
Bound == Abs(i2) <= MAX2 /\ Abs(i3) <= MAX3
=============================================================================
