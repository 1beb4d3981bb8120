------------------------------ MODULE StructGen ------------------------------
(* behaviours of Struct: tours [create; ask; change; ask; change; ask] over all pairs, and random walks *)
EXTENDS Struct, StructDefs, Json

TourNext ==
  \/ Len(hist) = 0 /\ \E how \in {"cart", "scaled"} : Create(how, 1)
  \/ Len(hist) = 1 /\ AnyAsk
  \/ Len(hist) = 2 /\ AnySet /\ data' # data
  \/ Len(hist) = 3 /\ AnyAsk
TourSpec == Init /\ [][TourNext]_svars
PrintTour == Len(hist) = 4 => PrintT("BEH " \o ToJson(hist))

WalkNext ==
  \/ Len(hist) < MaxHist /\ Next
  \/ Len(hist) = MaxHist /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<made, data, kept>>
       /\ hist' = Append(hist, [op |-> "end", k |-> "end", v |-> 0])
WalkSpec == Init /\ [][WalkNext]_svars
=============================================================================
