----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* Projection of the mass weighted velocities of a supercell onto a wave   *)
(* vector, atom by atom.  The crystal: fractional coordinates of the atoms *)
(* of the unit cell in quarters (F4), the types of atoms, root masses (W), *)
(* 2 x primitive matrix (PM2).  Wave vectors (reduced, of the primitive    *)
(* cell) in quarters of reciprocal lattice vectors: where the phases of    *)
(* all atoms are quarters of a turn, everything is a Gaussian integer.     *)
(***************************************************************************)
EXTENDS Gauss, Supercell, FiniteSets

\* 4 x wave vector in the reciprocal lattice of the unit cell: q PM^-1 = 2 q Adj(2PM)/Det(2PM)
QUnit(q4, PM2) == LET n == VM(q4, Adj(PM2)) IN <<2 * n[1], 2 * n[2], 2 * n[3]>>      \* over Det(PM2)
QUnitInt(q4, PM2) == \A k \in K : QUnit(q4, PM2)[k] % Det(PM2) = 0
QU(q4, PM2) == LET n == QUnit(q4, PM2) d == Det(PM2) IN <<n[1] \div d, n[2] \div d, n[3] \div d>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

\* the phase of each atom of the unit cell is a multiple of a quarter of a turn
Exact(q4, PM2, F4) == QUnitInt(q4, PM2) /\ \A a \in 1..Len(F4) : Dot(QU(q4, PM2), F4[a]) % 4 = 0
\* phase of atom n of the supercell, in quarters of a turn
Phase(qu, F4, sc, n) == Dot(qu, F4[AtomOf(sc, n)]) \div 4 + Dot(qu, ShiftOf(sc, n))

\* q den (integers) is a wave vector of the supercell: q PM^-1 sc integer
Commensurate(q, den, PM2, sc) ==
  LET n == VM(q, Adj(PM2)) IN \A k \in K : (2 * n[k] * sc[k]) % (Abs(Det(PM2)) * den) = 0

\* projection for one component of the velocities v[n]: type |-> sum of root mass x velocity x exp(-i q.r)
Projected(v, W, F4, type, ntypes, qu, sc, only) ==
  [t \in 1..ntypes |-> CSum([n \in 1..Len(v) |->
       IF type[AtomOf(sc, n)] = t /\ only \in {0, t}
       THEN CMul(CScale(W[AtomOf(sc, n)], v[n]), IPow(-Phase(qu, F4, sc, n))) ELSE CZero])]
=============================================================================
