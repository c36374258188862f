------------------------------ MODULE MCKitti -------------------------------
(* Every listing order of every small directory, and every way an input    *)
(* can deliver a short scan.                                               *)
EXTENDS Kitti
CONSTANTS MAXFILES, MAXBYTES, REC
VARIABLES dir,      \* what the directory contains: the files, in creation order
          what,     \* "clouds" or "poses"
          input     \* the bytes of the scan
vars == <<scanvars, dirvars, dir, what, input>>

Names == { <<48, 49>>, <<48, 57>>, <<49>>, <<49, 48>>, <<50>> }
File(n, bad) == IF bad THEN [name |-> n, kind |-> "bad"]
                ELSE IF what = "poses" THEN [name |-> n, kind |-> "pose", v |-> <<n[1], Len(n), n[Len(n)]>>]
                ELSE [name |-> n, kind |-> "cloud", id |-> n[Len(n)] + 100 * Len(n)]
NameSeqs == { s \in UNION { [1..k -> Names] : k \in 0..MAXFILES } :
                \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
Orders(s) == { o \in [DOMAIN s -> DOMAIN s] : \A i, j \in DOMAIN s : i # j => o[i] # o[j] }

Init ==
  /\ what \in {"clouds", "poses"}
  /\ \E s \in NameSeqs : \E bad \in 0..Len(s) : dir = [ k \in DOMAIN s |-> File(s[k], k = bad) ]
  /\ DirStart
  /\ \E n \in 0..MAXBYTES : input = [ k \in 1..n |-> k ]
  /\ ScanStart(input)
  \* the two machines do not interact: explore one at a time
  /\ (dir = <<>> \/ input = <<>>)
Next ==
  /\ UNCHANGED <<dir, what, input>>
  /\ \/ /\ UNCHANGED scanvars
        /\ \/ \E o \in Orders(dir) : List([ k \in DOMAIN dir |-> dir[o[k]] ])
           \/ dir = <<>> /\ Missing
           \/ ReadFile(what)
           \/ DirDone
     \/ /\ UNCHANGED dirvars
        /\ (\E n \in 1..MAXBYTES : Deliver(n)) \/ Interrupted \/ InputFails \/ Eof(REC)
DirStep == (ReadFile(what) \/ DirDone) /\ UNCHANGED <<scanvars, dir, what, input>>
Spec == Init /\ [][Next]_vars /\ WF_vars(DirStep)

Bad == \E k \in DOMAIN dir : ~Loadable(dir[k], what)
\* All or nothing, in name order, whatever the listing order was.
DirInv == dphase = "ok" =>
  /\ ~Bad /\ Len(out) = Len(dir)
  /\ \A i, j \in DOMAIN listing : NameLess(listing[i].name, listing[j].name) =>
       \E a, b \in DOMAIN out : a < b
         /\ out[a] = (IF what = "poses" THEN Sub(listing[i].v, origin) ELSE <<listing[i].id>>)
         /\ out[b] = (IF what = "poses" THEN Sub(listing[j].v, origin) ELSE <<listing[j].id>>)
ErrInv == dphase = "err" => out = <<>> /\ (Bad \/ dir = <<>>)
SortInv == FastSorted(dir) = Sorted(dir) /\ FastSorted(listing) = Sorted(listing)
BadInv == Bad => dphase # "ok"
\* The first pose in name order is the origin.
OriginInv == (what = "poses" /\ out # <<>>) =>
  /\ out[1] = <<0, 0, 0>>
  /\ \E k \in DOMAIN dir : dir[k].kind = "pose" /\ dir[k].v = origin
       /\ \A j \in DOMAIN dir : j # k => NameLess(dir[k].name, dir[j].name)
\* The collected bytes are the input's, in order; only whole scans parse.
ScanInv == /\ buf \o src = input
           /\ rphase = "ok" => /\ buf = input /\ Len(input) % REC = 0
                               /\ Len(scan) * REC = Len(input)
                               /\ \A k \in 1..Len(scan), i \in 1..(REC - 1) :
                                     scan[k][i] = input[(k - 1) * REC + i]
           /\ Len(input) % REC # 0 => rphase # "ok"
DirTerminates == (dphase = "read") ~> (dphase \in {"ok", "err"})
=============================================================================
