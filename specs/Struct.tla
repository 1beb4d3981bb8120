------------------------------- MODULE Struct -------------------------------
(***************************************************************************)
(* A crystal structure: the data it was given (positions, primitive        *)
(* matrix, masses, forces), setters that replace them, and quantities      *)
(* derived from them and kept.  Each kept quantity carries the data it     *)
(* was computed from (ghost).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NPos, NPm, NMass,     \* number of alternatives for each kind of data
          Forces,               \* descriptions of forces: records [kind, sc, ok]
          Supers,               \* number of supercells that may be asked for (0: none, unit cell)
          MaxHist

Data == {"pos", "pm", "mass", "force"}
\* what is derived and kept, and from what
Kept == [ scaled |-> {"pos"}, primcell |-> {"pm"}, types |-> {"pos", "pm", "mass"},
          ntypes |-> {"pos", "pm", "mass"}, nprim |-> {"pos", "pm", "mass"} ]
Uses == [ scaled |-> {}, primcell |-> {}, types |-> {"primcell"}, ntypes |-> {"types", "primcell"}, nprim |-> {"types", "primcell"} ]

\* requests that take a supercell
WithSuper == {"positions", "scaled", "cell", "types", "masses", "elements", "unique", "numbers", "charges", "params"}
Plain == {"primcell", "pm", "ntypes", "nprim", "natoms", "fsuper"}
Asks == WithSuper \cup Plain
Needs == [ positions |-> {}, scaled |-> {"scaled"}, cell |-> {}, types |-> {"types"}, masses |-> {}, elements |-> {},
           unique |-> {"types"}, numbers |-> {}, charges |-> {}, params |-> {}, primcell |-> {"primcell"}, pm |-> {},
           ntypes |-> {"ntypes"}, nprim |-> {"nprim"}, natoms |-> {}, fsuper |-> {} ]

VARIABLES made, data, kept, hist
svars == <<made, data, kept, hist>>

Note(e) == hist' = IF MaxHist > 0 THEN Append(hist, e) ELSE hist
Version(q, d) == [f \in Kept[q] |-> d[f]]

Init == made = "" /\ data = [pos |-> 1, pm |-> 1, mass |-> 1, force |-> 0] /\ kept = [k \in {} |-> 0] /\ hist = <<>>

\* a structure is made from cartesian or from scaled positions, with or without a primitive matrix (0: the unit cell)
Create(how, p) ==
  /\ made = ""
  /\ made' = how
  /\ data' = [data EXCEPT !.pm = p]
  /\ kept' = IF how = "scaled" THEN "scaled" :> Version("scaled", data') ELSE kept
  /\ Note([op |-> "create", k |-> how, v |-> p])

Change(f, v) ==
  /\ data' = [data EXCEPT ![f] = v]
  /\ kept' = [q \in {q \in DOMAIN kept : f \notin Kept[q]} |-> kept[q]]
  /\ UNCHANGED made

Set(f, how, v) ==
  /\ made # ""
  /\ Change(f, v)
  /\ Note([op |-> "set", k |-> how, v |-> v])

Closed(S) == S \cup UNION {Uses[q] : q \in S}
Answers(k) == ~(k = "fsuper" /\ data.force # 0 /\ ~Forces[data.force].ok)

Ask(k, s) ==
  /\ made # ""
  /\ LET new == Closed(Needs[k]) \ DOMAIN kept IN
     kept' = IF new = {} THEN kept ELSE [q \in new |-> Version(q, data)] @@ kept
  /\ UNCHANGED <<made, data>>
  /\ Note([op |-> "ask", k |-> k, v |-> s])

AnyAsk == \E k \in Asks : \E s \in IF k \in WithSuper THEN 0..Supers ELSE {0} : Ask(k, s)
AnySet == \/ \E v \in 1..NPos : Set("pos", "pos", v)
          \/ \E v \in 1..NPm, how \in {"pm", "dict"} : Set("pm", how, v)
          \/ \E v \in 1..NMass : Set("mass", "mass", v)
          \/ \E v \in 1..Len(Forces) : Set("force", "force", v)
AnyCreate == \E how \in {"cart", "scaled"}, p \in 0..NPm : Create(how, p)
Next == AnyCreate \/ AnySet \/ AnyAsk
Spec == Init /\ [][Next]_svars

\* ------------------------------------------------------------- properties
\* what is kept belongs to the present data
Coherent == \A q \in DOMAIN kept : \A f \in Kept[q] : kept[q][f] = data[f]
\* a request changes no data
AskPure == [][\A k \in Asks, s \in 0..Supers : Ask(k, s) => UNCHANGED data]_svars
=============================================================================
