---------------------------- MODULE ChannelsGen ----------------------------
EXTENDS Channels, Json
\* a behaviour is printed when it is complete
Emit == /\ Len(hist) = MaxOps /\ next = 1 /\ next' = 2 /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<chans, threads, hist, pc, mine, w, out>>
GenSpec == Init /\ [][(next = 1 /\ Ops) \/ Emit]_vars
=============================================================================
