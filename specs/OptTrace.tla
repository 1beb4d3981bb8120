------------------------------ MODULE OptTrace ------------------------------
(* recorded option writes: events [o (name), v (token), back: name -> token, raised] *)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt
T == JsonDeserialize("traces.json")
VARIABLES i, j, reg, bad
Names == DOMAIN T[1].init
Init == i = 1 /\ j = 1 /\ reg = T[1].init /\ bad = <<>>
Ev == /\ i <= Len(T) /\ j <= Len(T[i].events)
      /\ LET e == T[i].events[j]
             r == [reg EXCEPT ![e.o] = e.v]
             f == {n \in Names : e.back[n] # r[n]}
         IN /\ reg' = r
            /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> "option:" \o n \o ":after:" \o e.o] : n \in f})
      /\ j' = j + 1 /\ UNCHANGED i
Nx == /\ i <= Len(T) /\ j > Len(T[i].events)
      /\ i' = i + 1 /\ j' = 1 /\ reg' = (IF i < Len(T) THEN T[i + 1].init ELSE reg) /\ UNCHANGED bad
Done == /\ i = Len(T) + 1 /\ j = 1 /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(T)])
        /\ j' = 2 /\ UNCHANGED <<i, reg, bad>>
Spec == Init /\ [][Ev \/ Nx \/ Done]_<<i, j, reg, bad>>
=============================================================================
