------------------------------ MODULE InputTrace ------------------------------
(* input files written in every order of the sections, read by the code *)
EXTENDS InputFile, Integers, Json, SequencesExt

Job == JsonDeserialize("traces.json")
Given == Job.given        \* what each section of variant v says
Traces == Job.traces
VARIABLES i, bad

Has(t, s) == \E x \in DOMAIN t.order : t.order[x] = s
Near3(a, b) == \A x, y \in 1..3 : a[x][y] = b[x][y]
\* clauses: what was read, r, against what the file says, g; absent sections read as empty
Parts(t) ==
  LET g == Given[t.variant]  r == t.read
      Is(s, v, w) == IF Has(t, s) THEN v = w ELSE v = <<>>
  IN [ poscar |-> IF Has(t, "poscar") THEN r.poscar = <<g.poscar>> ELSE r.poscar = <<"POSCAR">>,
       outcar |-> Is("outcar", r.outcar, <<g.outcar>>),
       fsets  |-> Is("fsets", r.fsets, <<g.fsets>>),
       fconst |-> Is("fconst", r.fconst, <<g.fconst>>),
       prim   |-> Is("prim", r.prim, g.prim),
       super  |-> Is("super", r.super, g.super),
       mesh   |-> Is("mesh", r.mesh, g.mesh),
       bands  |-> IF Has(t, "bands") THEN r.bands = g.bands ELSE IF Has(t, "bandsl") THEN r.bands = g.bandsl ELSE r.bands = <<>>,
       labels |-> IF Has(t, "bandsl") THEN r.labels = g.labels ELSE r.labels = <<>>,
       \* handed over to the structure and the parameters
       structure |-> IF Has(t, "prim") THEN t.used.prim = g.prim ELSE TRUE,
       usedmesh  |-> IF Has(t, "mesh") THEN t.used.mesh = g.mesh ELSE TRUE,
       usedbands |-> IF Has(t, "bands") THEN t.used.bands = g.bands ELSE IF Has(t, "bandsl") THEN t.used.bands = g.bandsl ELSE TRUE ]
Check(t) == IF t.died THEN {"refused"} ELSE LET r == Parts(t) IN {"wrong:" \o f : f \in {f \in DOMAIN r : ~r[f]}}

TInit == i = 1 /\ bad = <<>> /\ order = <<>> /\ file = <<>> /\ pos = 0 /\ reading = "" /\ got = <<>>
TNext ==
  /\ UNCHANGED vars
  /\ \/ /\ i <= Len(Traces)
        /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 0, clause |-> s] : s \in Check(Traces[i])})
        /\ i' = i + 1
     \/ /\ i = Len(Traces) + 1
        /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
        /\ i' = i + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_<<i, bad, vars>>
=============================================================================
