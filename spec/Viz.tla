-------------------------------- MODULE Viz --------------------------------
(***************************************************************************)
(* The visualiser: the window thread and its background integrations, one  *)
(* atomic step per lock, flag access or critical section.                  *)
(*                                                                         *)
(* The world is one-dimensional here: scan s makes the absolute cells      *)
(* Hits[s] occupied, frees the cells Frees[s], and leaves the map starting *)
(* at cell Lows[s] (never higher than before).  The map, its change list   *)
(* and the keys of the window's table count cells from the map's low end,  *)
(* as the code does.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS SCANS,     \* number of scans; they are integrated round and round
          LAUNCHES,  \* bound on the number of integrations
          VARIANT    \* "code", or a seeded defect

\* Three scenes: growth without hits, cells becoming free, all at once.
Hits  == << {1, 4}, {0, 2}, {3} >>
Frees == << {2}, {1}, {0, 4} >>
Lows  == << 1, -2, -4 >>

VARIABLES
  lo, occ, gchg,       \* the map: low end, occupied absolute cells, change list
  glock, clock,        \* owners of the two locks: 0 nobody, 1 the window, 2.. workers
  chg,                 \* the hand-over list
  finished,
  uipc, index, launched, taken, tracked, atTake,
  wk,                  \* workers: sequence of [pc, scan]
  done,                \* ghost: the scans integrated, in order
  n, k                 \* the last frame (see VizObs)
vars == <<lo, occ, gchg, glock, clock, chg, finished, uipc, index, launched, taken, tracked, atTake, wk,
          done, n, k>>

Init ==
  /\ lo = 0 /\ occ = {} /\ gchg = {} /\ glock = 0 /\ clock = 0 /\ chg = {} /\ finished = TRUE
  /\ uipc = "check" /\ index = 1 /\ launched = 0 /\ taken = 0 /\ tracked = <<>> /\ atTake = {}
  /\ wk = <<>> /\ done = <<>> /\ n = 0 /\ k = 0

-----------------------------------------------------------------------------
(* The window.                                                             *)
wsame == UNCHANGED <<lo, occ, gchg, wk, done>>

Check == /\ uipc = "check" /\ launched < LAUNCHES
         /\ uipc' = IF finished THEN "lockc" ELSE "draw"
         /\ wsame /\ UNCHANGED <<glock, clock, chg, finished, index, launched, taken, tracked, atTake, n, k>>
LockC == /\ uipc = "lockc" /\ clock = 0 /\ clock' = 1 /\ uipc' = "lockg"
         /\ wsame /\ UNCHANGED <<glock, chg, finished, index, launched, taken, tracked, atTake, n, k>>
LockG == /\ uipc = "lockg" /\ glock = 0 /\ glock' = 1 /\ uipc' = "take"
         /\ wsame /\ UNCHANGED <<clock, chg, finished, index, launched, taken, tracked, atTake, n, k>>

\* The keys of the table are relative cells; its values are absolute cells.
Rekeyed == IF VARIANT = "norekey" THEN tracked
           ELSE LET vs == { tracked[x] : x \in DOMAIN tracked }
                IN [x \in { v - lo : v \in vs } |-> x + lo]
TakeOver ==
  LET t == Rekeyed
      on  == { c \in chg : c + lo \in occ }
      off == chg \ on
  IN [x \in (DOMAIN t \ off) \cup on |-> IF x \in DOMAIN t THEN t[x] ELSE x + lo]
Take == /\ uipc = "take" /\ uipc' = "unlock"
        /\ tracked' = TakeOver /\ chg' = {} /\ atTake' = occ /\ taken' = Len(done)
        /\ wsame /\ UNCHANGED <<glock, clock, finished, index, launched, n, k>>
Unlock == /\ uipc = "unlock" /\ glock' = 0 /\ clock' = 0
          /\ uipc' = IF VARIANT = "order" THEN "spawn" ELSE "clear"
          /\ wsame /\ UNCHANGED <<chg, finished, index, launched, taken, tracked, atTake, n, k>>
Clear == /\ uipc = "clear" /\ finished' = FALSE
         /\ uipc' = IF VARIANT = "order" THEN "draw" ELSE "spawn"
         /\ wsame /\ UNCHANGED <<glock, clock, chg, index, launched, taken, tracked, atTake, n, k>>
Spawn == /\ uipc = "spawn" /\ uipc' = IF VARIANT = "order" THEN "clear" ELSE "draw"
         /\ wk' = Append(wk, [pc |-> "lockg", scan |-> index])
         /\ index' = 1 + (index % SCANS) /\ launched' = launched + 1
         /\ UNCHANGED <<lo, occ, gchg, done, glock, clock, chg, finished, taken, tracked, atTake, n, k>>
Draw == /\ uipc = "draw" /\ uipc' = "check" /\ n' = launched /\ k' = taken
        /\ wsame /\ UNCHANGED <<glock, clock, chg, finished, index, launched, taken, tracked, atTake>>
Window == Check \/ LockC \/ LockG \/ Take \/ Unlock \/ Clear \/ Spawn \/ Draw

-----------------------------------------------------------------------------
(* A background integration.                                               *)
usame == UNCHANGED <<uipc, index, launched, taken, tracked, atTake, n, k>>
Goto(w, pc) == wk' = [wk EXCEPT ![w].pc = pc]
At(w, pc) == wk[w].pc = pc

WLockG(w) == /\ At(w, "lockg") /\ glock = 0 /\ glock' = w + 1
             /\ Goto(w, IF VARIANT = "early" THEN "early" ELSE "work")
             /\ usame /\ UNCHANGED <<lo, occ, gchg, clock, chg, finished, done>>
WEarly(w) == /\ At(w, "early") /\ finished' = TRUE /\ Goto(w, "work")
             /\ usame /\ UNCHANGED <<lo, occ, gchg, glock, clock, chg, done>>
WWork(w) == /\ At(w, "work") /\ Goto(w, IF VARIANT = "lost" THEN "lost" ELSE "lockc")
            /\ LET s == wk[w].scan
                   nlo == IF Lows[s] < lo THEN Lows[s] ELSE lo
               IN /\ lo' = nlo
                  /\ occ' = (occ \ Frees[s]) \cup Hits[s]
                  /\ gchg' = { a - nlo : a \in Hits[s] \cup Frees[s] }
                  /\ done' = Append(done, s)
            /\ usame /\ UNCHANGED <<glock, clock, chg, finished>>
WLost(w) == /\ At(w, "lost") /\ finished' = TRUE /\ glock' = 0 /\ Goto(w, "lockc")
            /\ usame /\ UNCHANGED <<lo, occ, gchg, clock, chg, done>>
WLockC(w) == /\ At(w, "lockc") /\ clock = 0 /\ clock' = w + 1 /\ Goto(w, "publish")
             /\ usame /\ UNCHANGED <<lo, occ, gchg, glock, chg, finished, done>>
WPublish(w) == /\ At(w, "publish") /\ chg' = gchg /\ Goto(w, "freec")
               /\ usame /\ UNCHANGED <<lo, occ, gchg, glock, clock, finished, done>>
WFreeC(w) == /\ At(w, "freec") /\ clock' = 0 /\ Goto(w, "clear")
             /\ usame /\ UNCHANGED <<lo, occ, gchg, glock, chg, finished, done>>
WClear(w) == /\ At(w, "clear") /\ gchg' = {} /\ Goto(w, "finish")
             /\ usame /\ UNCHANGED <<lo, occ, glock, clock, chg, finished, done>>
WFinish(w) == /\ At(w, "finish") /\ finished' = TRUE /\ Goto(w, "freeg")
              /\ usame /\ UNCHANGED <<lo, occ, gchg, glock, clock, chg, done>>
WFreeG(w) == /\ At(w, "freeg") /\ glock' = (IF glock = w + 1 THEN 0 ELSE glock) /\ Goto(w, "end")
             /\ usame /\ UNCHANGED <<lo, occ, gchg, clock, chg, finished, done>>
Worker(w) == WLockG(w) \/ WEarly(w) \/ WWork(w) \/ WLost(w) \/ WLockC(w) \/ WPublish(w) \/ WFreeC(w) \/ WClear(w)
             \/ WFinish(w) \/ WFreeG(w)

Over == /\ uipc = "check" /\ launched = LAUNCHES
        /\ \A w \in 1..Len(wk) : At(w, "end")
        /\ UNCHANGED vars
Next == Window \/ (\E w \in 1..Len(wk) : Worker(w)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Window) /\ \A w \in 1..LAUNCHES : WF_vars(w <= Len(wk) /\ Worker(w))

-----------------------------------------------------------------------------
\* The map after the first m integrations.
RECURSIVE OccAfter(_)
ScanNo(m) == 1 + ((m - 1) % SCANS)
OccAfter(m) == IF m = 0 THEN {} ELSE (OccAfter(m - 1) \ Frees[ScanNo(m)]) \cup Hits[ScanNo(m)]

OneWorker == Cardinality({ w \in 1..Len(wk) : ~At(w, "end") }) <= 1
InOrder   == \A m \in 1..Len(done) : done[m] = ScanNo(m)
Points    == { tracked[x] : x \in DOMAIN tracked }
\* What is drawn is the map at the last take-over, drawn once per cell, and
\* nothing that had been integrated by then is missing.
Drawn     == uipc = "draw" =>
               /\ Points = atTake /\ Cardinality(DOMAIN tracked) = Cardinality(Points)
               /\ atTake = OccAfter(taken) /\ taken >= launched - 1
Obs == INSTANCE VizObs
ObsRefined == Obs!ObsSpec
AllIntegrated == <>(Len(done) = LAUNCHES)
=============================================================================
