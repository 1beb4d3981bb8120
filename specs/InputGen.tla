------------------------------ MODULE InputGen ------------------------------
EXTENDS InputFile, Json
GenInit == /\ order \in Orders /\ reading \in Fillers /\ file = <<>> /\ pos = 0 /\ got = <<>>
GenNext == /\ pos = 0 /\ pos' = 1 /\ PrintT("BEH " \o ToJson([order |-> order, filler |-> reading]))
           /\ UNCHANGED <<order, reading, file, got>>
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
