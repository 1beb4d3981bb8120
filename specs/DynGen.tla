------------------------------- MODULE DynGen -------------------------------
(* behaviours of Dyn for the implementation: tours [create; ask; crop; ask; (crop; ask;) drop] and random walks *)
EXTENDS Dyn, Json

TourNext ==
  LET o == CHOOSE x \in Objs : TRUE IN
  \/ Len(hist) = 0 /\ \E src \in Sources, mm \in BOOLEAN : Create(o, src, mm)
  \/ Len(hist) \in {1, 3} /\ \E r \in Asks : Answers(obj[o], r) /\ Ask(o, r)
  \/ Len(hist) = 2 /\ \E n \in Crops : Crop(o, n)
  \/ Len(hist) = 4 /\ Drop(o)
TourSpec == Init /\ [][TourNext]_vars
PrintTour == Len(hist) = 5 => PrintT("BEH " \o ToJson(hist))

WalkNext ==
  \/ Len(hist) < MaxHist /\ Next
  \/ Len(hist) = MaxHist /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<obj, files>>
       /\ hist' = Append(hist, [op |-> "end", o |-> 0, k |-> "end", v |-> 0])
WalkSpec == Init /\ [][WalkNext]_vars
=============================================================================
