------------------------------- MODULE MCMap -------------------------------
(* Small instances of GridMap: two maps, every operation, all orders up to *)
(* a bound.  With EMIT the operations of each behaviour are printed as a   *)
(* script that the conformance driver replays against the real code.       *)
EXTENDS GridMap, Json
CONSTANTS DIM, SUB, TILE, IDS, DEPTH, OPS, EMIT
VARIABLE hist
vars == <<maps, world, marks, hist>>
NP == <<3, -2, -5, 7, 0, 2 * SUB * 3, 0>>
D == DIM
V(a, b) == IF D = 2 THEN <<a, b>> ELSE <<a, b, 0>>
Los    == { V(0, 0), V(-2, 0) }
Exts   == { V(2, 2), V(1, 2) }
ExtsD  == { IF D = 2 THEN n ELSE <<n[1], n[2], 1>> : n \in Exts }
CellsR == { V(0, 0), V(1, 1), V(3, 0), V(0, -1) }
Pts    == { V(1, 1), V(-5, 4), V(8, 0), V(0, -3) }
Boxes  == { <<p, q>> \in Pts \X Pts : LeqVec(p, q) }
Vals   == { 1, 2 }
Clouds == { <<>>, <<V(8, 1)>>, <<V(8, 3), V(-5, 0)>>, <<V(1, 1), V(1, 1)>> }
On(op) == op \in OPS
Log(t) == hist' = Append(hist, t)

Init == /\ maps = [k \in IDS |-> NoMap] /\ world = [k \in IDS |-> NoMap]
        /\ marks = [k \in IDS |-> <<>>] /\ hist = <<>>
Next ==
  \/ \E k \in IDS :
     \/ On("new") /\ ~Live(k) /\ \E lo \in Los, n \in ExtsD, v \in Vals :
          Create(k, D, lo, n, v) /\ Log([op |-> "new", m |-> k, lo |-> lo, hi |-> Add(lo, n), v |-> v])
     \/ On("newd") /\ ~Live(k) /\ Create(k, D, Zero(D), Zero(D), 0) /\ Log([op |-> "newd", m |-> k])
     \/ On("set") /\ \E c \in CellsR, v \in Vals :
          SetCell(k, c, v) /\ Log([op |-> "set", m |-> k, c |-> c, v |-> v])
     \/ On("exp") /\ \E b \in Boxes :
          Expand(k, b[1], b[2], 9, SUB, TILE)
          /\ Log([op |-> "exp", m |-> k, x |-> b[1], y |-> b[2], v |-> 9])
     \/ On("trk") /\ \E b \in {0, 1} : Track(k, b) /\ Log([op |-> "trk", m |-> k, b |-> b])
     \/ On("clr") /\ ClearMarks(k) /\ Log([op |-> "clr", m |-> k])
     \/ On("add") /\ Live(k) /\ ~IsBlank(maps[k]) /\ AddMarks(k, <<V(1, 0)>>)
          /\ Log([op |-> "add", m |-> k, cs |-> <<V(1, 0)>>])
     \/ On("int") /\ \E o \in { V(0, 0), V(-3, 5) }, p \in Clouds :
          Integrate(k, o, p, D, SUB, TILE, NP) /\ Log([op |-> "int", m |-> k, o |-> o, p |-> p])
     \/ On("hit") /\ \E c \in { V(0, 0), V(1, 0) }, h \in BOOLEAN :
          UpdateCell(k, c, h, NP) /\ Log([op |-> IF h THEN "hit" ELSE "mis", m |-> k, c |-> c])
     \/ On("clone") /\ \E j \in IDS :
          CloneMap(k, j) /\ Log([op |-> "clone", m |-> k, j |-> j])
  \/ Len(hist) = DEPTH /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= DEPTH
NoHist == mapvars
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT("SCRIPT " \o ToJson(hist))
\* With only updates (no direct writes above the limits) values stay clamped.
ClampInv == \A k \in IDS : (Live(k) /\ OPS \cap {"set", "new", "exp"} = {}) =>
  \A j \in 1..Len(maps[k].d) : maps[k].d[j] >= NP[3] /\ maps[k].d[j] <= NP[4]
=============================================================================
