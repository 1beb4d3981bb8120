------------------------------ MODULE OrderTrace ------------------------------
(* orders found and trajectories delivered by the code, against Order; 1/16 Angstrom, observed numbers times 1000 *)
EXTENDS Supercell, Json, SequencesExt, FiniteSetsExt, TLC

Job == JsonDeserialize("traces.json")
Cr == Job.crystals
Traces == Job.traces
VARIABLES i, bad

SitePos(c, sc, n) == Plus(c.upos[AtomOf(sc, n)], VM(ShiftOf(sc, n), c.Hu))
\* obs = p up to a lattice vector of H
Same(obs, p, H) == LET r == <<Round(obs[1], 1000), Round(obs[2], 1000), Round(obs[3], 1000)>>
                   IN /\ \A k \in K : Abs(obs[k] - 1000 * r[k]) <= 5
                      /\ IsLattice(Minus(r, p), H)

OrderOK(t) ==
  LET c == Cr[t.c]  H == SuperMat(c.Hu, t.sc)  N == Len(c.upos) * Cells(t.sc) IN
  [template |-> t.template = t.perm,
   supercell |-> t.matrix = t.sc,
   delivered |-> /\ Len(t.frames) = Len(t.disp)
                 /\ \A f \in 1..Len(t.frames) : /\ Len(t.frames[f]) = N
                       /\ \A n \in 1..N : Same(t.frames[f][n], Plus(SitePos(c, t.sc, n), t.disp[f][n]), H)]

\* a cell that is no multiple of the unit cell (off by a quarter of it) is refused; one within the tolerance is taken
CellOK(t) == LET off == t.big /\ t.dev # <<0, 0, 0>> IN
  [refused |-> off => t.died, accepted |-> ~off => ~t.died, matrix |-> (~off /\ ~t.died) => t.matrix = t.sc]

Check(t) ==
  IF t.task = "cell" THEN LET r == CellOK(t) IN {"cell:" \o f : f \in {f \in DOMAIN r : ~r[f]}}
  ELSE IF t.died THEN {"refused:" \o t.fmt}
  ELSE LET r == OrderOK(t) IN {"wrong:" \o f \o ":" \o t.fmt : f \in {f \in DOMAIN r : ~r[f]}}

Init == i = 1 /\ bad = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 0, clause |-> s] : s \in Check(Traces[i])})
     /\ i' = i + 1
  \/ /\ i = Len(Traces) + 1
     /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
     /\ i' = i + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
