------------------------------ MODULE WrapGen ------------------------------
EXTENDS Wrap, Json
VARIABLE out
Small == {-3, -2, -1, 1, 2, 4, 5}
Wide == {-40, -3, -1, 1, 2}
Emit == Len(hist) = MaxOps /\ ~out /\ out' = TRUE /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED vars
GenSpec == Init /\ out = FALSE /\ [][(~out /\ Next /\ out' = out) \/ Emit]_<<vars, out>>
=============================================================================
