------------------------------ MODULE StoreGen ------------------------------
EXTENDS Store, Json
VARIABLE out
Emit == Len(hist) = MaxOps /\ ~out /\ out' = TRUE /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED vars
GenSpec == Init /\ out = FALSE /\ [][(~out /\ Next /\ out' = out) \/ Emit]_<<vars, out>>
=============================================================================
