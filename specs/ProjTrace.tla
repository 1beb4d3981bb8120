----------------------------- MODULE ProjTrace -----------------------------
(* projections made by the code against Projection; observed numbers times 1000 *)
EXTENDS Projection, ProjCrystals, Json, SequencesExt, FiniteSetsExt, TLC

Job == JsonDeserialize("traces.json")
Traces == Job.traces
VARIABLES i, bad
Near(obs, want) == Abs(obs - 1000 * want) <= 5
NearC(obs, want) == Near(obs[1], want[1]) /\ Near(obs[2], want[2])

\* velocities of component k of step f
Comp(t, f, k) == [n \in 1..Len(t.vel[f]) |-> <<t.vel[f][n][k], 0>>]
ProjectOK(t) ==
  LET r == Crystals[t.c]  qu == QU(t.q, r.PM2)
      want == [f \in 1..Len(t.vel) |-> LET x == <<Projected(Comp(t, f, 1), r.W, r.F4, r.type, r.nt, qu, t.sc, t.only),
                                                  Projected(Comp(t, f, 2), r.W, r.F4, r.type, r.nt, qu, t.sc, t.only),
                                                  Projected(Comp(t, f, 3), r.W, r.F4, r.type, r.nt, qu, t.sc, t.only)>>
                                       IN [a \in 1..r.nt |-> <<x[1][a], x[2][a], x[3][a]>>]]
  IN [vector |-> \A k \in K : Near(t.qcart[k], qu[k]),
      vc |-> /\ Len(t.vc) = Len(t.vel)
             /\ \A f \in 1..Len(t.vel) : /\ Len(t.vc[f]) = r.nt
                  /\ \A a \in 1..r.nt : \A k \in K : NearC(t.vc[f][a][k], want[f][a][k]),
      vq |-> t.vq # <<>> => \A f \in 1..Len(t.vel) : \A m \in 1..Len(t.ev) :
                NearC(t.vq[f][m], CSum([a \in 1..r.nt |-> CSum([k \in K |-> CMul(want[f][a][k], CConj(t.ev[m][a][k]))])])),
      commensurate |-> t.warned = ~Commensurate(t.q, 4, r.PM2, t.sc)]

\* wave vectors of the supercell: den-ths of reciprocal vectors of the primitive cell
PointsOK(t) ==
  LET r == Crystals[t.c]
      int == \A p \in 1..Len(t.points) : \A k \in K : t.points[p][k] % 1000 \in 0..5 \cup 995..999
      red == {<<Round(t.points[p][1], 1000) % 24, Round(t.points[p][2], 1000) % 24, Round(t.points[p][3], 1000) % 24>> : p \in 1..Len(t.points)}
  IN [exact |-> int,
      distinct |-> Cardinality(red) = Len(t.points),
      number |-> Len(t.points) * Abs(Det(r.PM2)) = 8 * Cells(t.sc),
      commensurate |-> \A q \in red : Commensurate(q, 24, r.PM2, t.sc),
      probes |-> \A p \in 1..Len(t.probes) : t.probes[p].yes = Commensurate(t.probes[p].q, 24, r.PM2, t.sc)]

Check(t) ==
  IF t.died THEN {"refused:" \o t.task}
  ELSE LET r == IF t.task = "project" THEN ProjectOK(t) ELSE PointsOK(t)
       IN {"wrong:" \o t.task \o ":" \o f : f \in {f \in DOMAIN r : ~r[f]}}

Init == i = 1 /\ bad = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 0, clause |-> s] : s \in Check(Traces[i])})
     /\ i' = i + 1
  \/ /\ i = Len(Traces) + 1
     /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
     /\ i' = i + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
