------------------------------ MODULE ProjGen ------------------------------
(* wave vectors with exact phases in every crystal and supercell, with and without restriction to one type *)
EXTENDS Projection, ProjCrystals, TLC, Json
CONSTANTS Scs, Qs
VARIABLES c
Q5 == {-1, 0, 1, 2, 4}
Q9 == -3..5
Init == c = <<>>
SC == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 3>>, <<2, 2, 1>>, <<4, 1, 1>>, <<3, 1, 2>>, <<1, 1, 4>>, <<2, 2, 2>>}
Pick(s) == Cells(s) <= Scs
Next ==
  /\ c = <<>>
  /\ \E x \in 1..Len(Crystals), s \in {y \in SC : Pick(y)} :
       LET r == Crystals[x] IN
       \/ \E q \in {<<a, b, d>> : a, b, d \in Qs} : \E only \in 0..r.nt :
            /\ Exact(q, r.PM2, r.F4)
            /\ c' = [task |-> "project", c |-> x, sc |-> s, q |-> q, only |-> only]
       \/ c' = [task |-> "points", c |-> x, sc |-> s, q |-> <<0, 0, 0>>, only |-> 0]
  /\ PrintT("BEH " \o ToJson(c'))
Crys == PrintT("BEH " \o ToJson([crystals |-> Crystals]))
Spec == Init /\ Crys /\ [][Next]_c
=============================================================================
