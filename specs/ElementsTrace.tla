--------------------------- MODULE ElementsTrace ---------------------------
(* What the real structures answer: numbers, symbols and masses of crystals given by one of them *)
EXTENDS Elements
Traces == JsonDeserialize("traces.json").traces
VARIABLES i, bad
Near(x, y) == x - y <= 1 /\ y - x <= 1
Bad(t) == LET w == t.v.way IN
  IF t.died THEN {"element:died"}
  ELSE (IF w # "number" /\ t.el # <<Symbol(t.v.z[1]), Symbol(t.v.z[2])>> THEN {"element:symbol"} ELSE {})
       \cup (IF t.z # t.v.z THEN {"element:number"} ELSE {})
       \cup (IF \A k \in 1..2 : Near(t.mass[k], Mass(t.v.z[k])) THEN {} ELSE {"element:mass"})
TInit == i = 1 /\ bad = <<>> /\ todo = {} /\ one = 0
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (IF Bad(Traces[i]) = {} THEN <<>> ELSE <<[trace |-> i, at |-> 1, clause |-> CHOOSE x \in Bad(Traces[i]) : TRUE]>>)
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
         /\ UNCHANGED <<todo, one>>
TSpec == TInit /\ [][TNext]_<<i, bad, todo, one>>
=============================================================================
