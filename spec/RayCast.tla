------------------------------ MODULE RayCast ------------------------------
(* The ray tracer as a state machine over the rules of RayRules.           *)
EXTENDS RayRules

-----------------------------------------------------------------------------
(* The walk.                                                               *)
VARIABLES ray, co, ec, cell, path, phase
rayvars == <<ray, co, ec, cell, path, phase>>

Start(r) ==
  /\ ray = r
  /\ \E q \in Pairs(r) : co = q[1] /\ ec = q[2]
  /\ cell = co
  /\ path = IF co = ec THEN <<>> ELSE <<co>>
  /\ phase = IF co = ec THEN "hit" ELSE "walk"

Advance(i) ==
  /\ phase = "walk"
  /\ MayAdvance(ray, co, ec, cell, i)
  /\ cell' = Moved(ray, cell, i)
  /\ \/ /\ cell' = ec
        /\ phase' = "hit" /\ path' = path
     \/ /\ cell' # ec
        /\ MayExceed(ray, cell')
        /\ phase' = "cut" /\ path' = path
     \/ /\ cell' # ec
        /\ ~MustExceed(ray, cell')
        /\ phase' = "walk" /\ path' = Append(path, cell')
  /\ UNCHANGED <<ray, co, ec>>

RayNext == \E i \in 1..ray.D : Advance(i)
Finished == phase \in {"hit", "cut"}

-----------------------------------------------------------------------------
(* Properties of the walk.                                                 *)

\* C07: shape.
ShapeInv ==
  /\ \A j \in 1..(Len(path) - 1) : UnitStep(path[j], path[j + 1])
  /\ \A j, k \in 1..Len(path) : path[j] = path[k] => j = k
  /\ \A j \in 1..Len(path) : path[j] # ec
  /\ path # <<>> => path[1] = co
  /\ phase = "hit" => Len(path) = Manhattan(co, ec) /\ cell = ec
  /\ (phase = "hit" /\ path # <<>>) => UnitStep(path[Len(path)], ec)
\* Every cell lies between the origin cell and the end cell.
InsideInv == \A j \in 1..Len(path), i \in 1..ray.D :
  /\ path[j][i] >= Min2(co[i], ec[i]) /\ path[j][i] <= Max2(co[i], ec[i])
\* C08: geometry.  Only touched cells are visited, and, once the end has been
\* reached, every cell whose interior the segment crosses has been visited.
SoundInv == \A j \in 1..Len(path) : Touches(ray, path[j], FALSE)
Neighbourhood(r) == Product([i \in 1..r.D |->
  (Min2(co[i], ec[i]) - 1)..(Max2(co[i], ec[i]) + 1)])
CompleteInv == phase = "hit" =>
  \A c \in Neighbourhood(ray) :
     Touches(ray, c, TRUE) => c = ec \/ \E j \in 1..Len(path) : path[j] = c
\* C09: range.
RangeInv ==
  /\ \A j \in 2..Len(path) : ~MustExceed(ray, path[j])
  /\ phase = "cut" => MayExceed(ray, cell)
  /\ ~Limited(ray) => phase # "cut"
\* Distances never shrink along the walk, so a cut is final.
MonotoneInv == \A j \in 1..(Len(path) - 1) :
  Dist4(ray, path[j]) <= Dist4(ray, path[j + 1])
Terminates == <>Finished

=============================================================================
