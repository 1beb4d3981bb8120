------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The plain options of a session: independent registers.  What is read    *)
(* from an option is what was last written to it, and writing one changes  *)
(* no other.  Generation: random write sequences over N options with two   *)
(* values each; validation: OptTrace below judges the recorded sequences.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS N, Len0

VARIABLES reg, h
Init == reg = [o \in 1..N |-> 0] /\ h = <<>>
Write(o, v) == reg' = [reg EXCEPT ![o] = v] /\ h' = Append(h, [o |-> o, v |-> v])
Next == \/ Len(h) < Len0 /\ \E o \in 1..N, v \in {1, 2} : Write(o, v) /\ reg[o] # v
        \/ Len(h) = Len0 /\ PrintT("BEH " \o ToJson(h)) /\ h' = Append(h, [o |-> 0, v |-> 0]) /\ UNCHANGED reg
Spec == Init /\ [][Next]_<<reg, h>>

Frame == [][\A o \in 1..N : reg'[o] # reg[o] => \A p \in 1..N \ {o} : reg'[p] = reg[p]]_<<reg, h>>
=============================================================================
