------------------------------ MODULE HarmTrace ------------------------------
(***************************************************************************)
(* Generated trajectories of the real code, taken apart into the phonons   *)
(* of the harmonic crystal (phonopy): for each wave vector and level its   *)
(* number of phonons n, frequency f (10^-4 THz), mean kinetic energy ke    *)
(* (10^-2 amu A^2/ps^2), and what is left over when it oscillates at its   *)
(* frequency (rel, 10^-4 of its amplitude).  kT = 0.831446 T.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
Job == JsonDeserialize("traces.json")
Traces == Job.traces
Abs(x) == IF x < 0 THEN -x ELSE x
Within(a, b) == Abs(a - b) <= 3 + (b \div 300)
VARIABLES i, bad
Steps(v) == (v.total + v.dt - 1) \div v.dt
Cells(v) == v.sc[1] * v.sc[2] * v.sc[3]
Moves(v, g) == g.f > v.low * 1000 + 20
Half(v, g) == (41572 * v.T * g.n) \div 1000                 \* n times kT/2
Clauses(t) ==
  IF t.died THEN {"died"}
  ELSE LET v == t.v
           M == {k \in DOMAIN t.levels : Moves(v, t.levels[k])}
           A == {k \in DOMAIN t.levels : t.levels[k].f < v.low * 1000 - 20}
           equip == \A k \in M : Within(t.levels[k].ke, Half(v, t.levels[k]))
           known == \A k \in M : Within(t.levels[k].ke, (3 * Half(v, t.levels[k])) \div 2)
           cases == [ steps |-> t.steps \in Steps(v)..(Steps(v) + 1),
                      atoms |-> t.atoms = t.cell * Cells(v),
                      times |-> Len(t.time) = t.steps /\ \A k \in DOMAIN t.time : Abs(t.time[k] - (k - 1) * v.dt * 10) <= 1,
                      cell |-> t.sc = v.sc,
                      waves |-> Cardinality({t.levels[k].q : k \in DOMAIN t.levels}) = Cells(v) * t.prim,
                      energies |-> t.energy # <<>> => Len(t.energy) = t.steps /\ \A k \in DOMAIN t.energy : Abs(t.energy[k] - t.atoms * ((249434 * v.T) \div 100000)) <= 2 * t.atoms,
                      frequencies |-> \A k \in M : t.levels[k].rel <= 20,
                      rest |-> \A k \in A : t.levels[k].size <= 2,
                      real |-> t.imag = 0 ]
       IN {x \in DOMAIN cases : ~cases[x]} \cup (IF equip THEN {} ELSE IF known /\ M # {} THEN {"energy: 3/4 kT for kT/2"} ELSE {"energy"})
TInit == i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (LET s == Clauses(Traces[i]) IN
                           IF s = {} THEN <<>> ELSE LET f[x \in SUBSET s] == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<[trace |-> i, at |-> 1, clause |-> e]>> \o f[x \ {e}] IN f[s])
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<i, bad>>
=============================================================================
