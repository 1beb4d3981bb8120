----------------------------- MODULE ReaderGen -----------------------------
(* requests for the implementation: every initial state of Reader with a complete file *)
EXTENDS Reader, Json
GNext == /\ pc = "scan" /\ ~part /\ nfull \in {1, MaxSteps}
         /\ PrintT("BEH " \o ToJson([n |-> nfull, a |-> a, b |-> b, lim |-> lim, last |-> last]))
         /\ pc' = "printed" /\ UNCHANGED <<nfull, part, a, b, lim, last, at, kept>>
GSpec == Init /\ [][GNext]_vars
=============================================================================
