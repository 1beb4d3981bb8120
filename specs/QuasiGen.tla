------------------------------ MODULE QuasiGen ------------------------------
(***************************************************************************)
(* Behaviours of Quasi to be executed by the implementation.               *)
(*  Tours: every [request r, change of a setting (, another change),       *)
(*         request r2] where r2 is r or is computed from r.                *)
(*  Walks: random behaviours (simulation mode).                            *)
(***************************************************************************)
EXTENDS Quasi, Json, IOUtils

Above(r) == {r} \cup {r2 \in Results : r \in Closure(r2)}

\* what the harness needs to know of the model
ASSUME PrintT("DEP " \o ToJson([init |-> Init0, deps |-> [r \in Results |-> Depends(r)],
                                needcomm |-> [r \in Results |-> NeedsComm(r)]]))

\* ---- tours: state constraint of an exhaustive run; a change must change something
TourNext ==
  \/ Len(hist) = 0 /\ \E r \in Results : AskRec(r)
  \/ Len(hist) \in {1, 2} /\ Len(hist) < MaxHist - 1
       /\ \E k \in Keys : \E v \in Domain[k] : SetRec(k, v) /\ s' # s
  \/ Len(hist) = MaxHist - 1
       /\ \E r2 \in Above(hist[1].k) : AskRec(r2)

TourSpec == Init /\ [][TourNext]_vars

PrintTour == Len(hist) = MaxHist => PrintT("BEH " \o ToJson(hist))

\* ---- walks: one printed behaviour per simulated walk (the last step prints)
WalkNext ==
  \/ /\ Len(hist) < MaxHist
     /\ \/ \E r \in Results : AskRec(r)
        \/ \E k \in Keys : \E v \in Domain[k] : SetRec(k, v) /\ s' # s
        \/ \E k \in Refusing : RefuseRec(k)
  \/ /\ Len(hist) = MaxHist
     /\ PrintT("BEH " \o ToJson(hist))
     /\ hist' = Append(hist, [op |-> "end", k |-> "end", v |-> 0, st |-> s])
     /\ UNCHANGED <<s, kept>>
WalkSpec == Init /\ [][WalkNext]_vars
=============================================================================
