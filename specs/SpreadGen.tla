------------------------------ MODULE SpreadGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Crystals, MaxOps
Dirs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<1, 1, 0>>, <<1, -2, 2>>, <<2, 3, -1>>, <<0, -3, 4>>}
VARIABLES crystal, hist, out
Note(op, v) == hist' = Append(hist, [op |-> op, v |-> v])
Init == \E k \in 1..Len(Crystals) : crystal = Crystals[k] /\ hist = <<[op |-> "make", v |-> <<k>>]>> /\ out = FALSE
Op == \/ \E n \in {2, 3, 5, 6} : Note("crop", <<n>>)
      \/ \E d \in Dirs : Note("ask", d)
      \/ \E b \in {1, 4, 7, 30} : Note("bins", <<b>>)
Next == \/ Len(hist) < MaxOps /\ Op /\ UNCHANGED <<crystal, out>>
        \/ Len(hist) = MaxOps /\ ~out /\ out' = TRUE /\ PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED <<crystal, hist>>
GenSpec == Init /\ [][Next]_<<crystal, hist, out>>
Names == <<"A", "B", "C", "D", "E", "I">>
=============================================================================
