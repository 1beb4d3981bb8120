------------------------------ MODULE CellTrace ------------------------------
(***************************************************************************)
(* Files with cells written by the code, and structures read by it from    *)
(* files, against Supercell.  Cells in Angstrom, positions in 1/16         *)
(* Angstrom (integers); observed numbers times 1000 (fractions: 1e5).      *)
(***************************************************************************)
EXTENDS Supercell, Json, SequencesExt, FiniteSetsExt, TLC

Job == JsonDeserialize("traces.json")
Cr == Job.crystals
Traces == Job.traces

VARIABLES i, bad
U(M) == TLCEval([a \in K |-> [b \in K |-> 16 * M[a][b]]])
Near(v, x, tol) == Abs(v - x) <= tol
MatOK(v, M, s, tol) == Len(v) = 3 /\ \A a, b \in K : Near(v[a][b], s * M[a][b], tol)

\* positions of the supercell
SuperPos(c, sc) ==
  LET u == U(c.cell)
      sh == TLCEval([m \in 1..Cells(sc) |-> VM(Image(sc, m - 1), u)])
  IN TLCEval([n \in 1..Len(c.el) * Cells(sc) |-> Plus(c.pos[AtomOf(sc, n)], sh[((n - 1) % Cells(sc)) + 1])])

CartOK(v, P, tol) == Len(v) = Len(P) /\ \A n \in 1..Len(P) : \A b \in K : Near(v[n][b], 1000 * P[n][b], tol)
\* fractions times 1e5: they give the position back
FracOK(v, P, H) == /\ Len(v) = Len(P)
                   /\ LET u == U(H) IN \A n \in 1..Len(P) : LET p == TLCEval(VM(v[n], u)) IN \A b \in K : Near(p[b], 100000 * P[n][b], 1500)
Gram(H) == [a \in K |-> [b \in K |-> H[a][1] * H[b][1] + H[a][2] * H[b][2] + H[a][3] * H[b][3]]]
Els(c, sc) == [n \in 1..Len(c.el) * Cells(sc) |-> c.el[AtomOf(sc, n)]]

\* distinct elements in order of appearance
Distinct(s) == {x \in 1..Len(s) : \A y \in 1..x - 1 : s[y] # s[x]}
TypeNo(s, x) == LET lead == CHOOSE y \in 1..x : s[y] = s[x] /\ \A z \in 1..y - 1 : s[z] # s[x]
                IN Cardinality({y \in Distinct(s) : y <= lead})

ReadOK(c, t) == [cell |-> MatOK(t.cell, c.cell, 1000, 3), elements |-> t.el = c.el, positions |-> CartOK(t.pos, c.pos, 60),
                 numbers |-> t.z = c.z, masses |-> Len(t.mass) = Len(c.el) /\ \A n \in 1..Len(c.el) : Near(t.mass[n], c.realmass[n], t.masstol)]

Vasp(c, t) ==
  LET P == SuperPos(c, t.sc)  H == SuperMat(c.cell, t.sc) IN
  [scale |-> t.scale = 1000,
   cell |-> MatOK(t.cell, H, 1000, 1),
   elements |-> Len(t.names) = Len(t.counts) /\ Expand(t.names, t.counts) = Els(c, t.sc),
   runs |-> \A x \in 1..Len(t.names) - 1 : t.names[x] # t.names[x + 1],
   mode |-> t.mode = IF t.frac THEN "Direct" ELSE "Cartesian",
   positions |-> IF t.frac THEN FracOK(t.coords, P, H) ELSE CartOK(t.coords, P, 2),
   reread |-> /\ t.again.el = Els(c, t.sc) /\ MatOK(t.again.cell, H, 1000, 1) /\ CartOK(t.again.pos, P, 20)]

Lammps(c, t) ==
  LET P == SuperPos(c, t.sc)  H == SuperMat(c.cell, t.sc)  E == Els(c, t.sc) IN
  [natoms |-> t.natoms = Len(E) /\ t.ids = [n \in 1..Len(E) |-> n],
   origin |-> t.lo = <<0, 0, 0>> /\ \A a \in K : t.diag[a] > 0,
   cell |-> LET g == Gram(H) IN \A a, b \in K : Near(t.gram[a][b], 1000 * g[a][b], 2),
   positions |-> FracOK(t.frac, P, H),
   types |-> /\ t.ntypes = Cardinality(Distinct(c.el)) /\ Len(t.masses) = t.ntypes
             /\ t.types = [n \in 1..Len(E) |-> TypeNo(c.el, AtomOf(t.sc, n))],
   masses |-> \A a \in 1..Len(c.el) : Near(t.masses[TypeNo(c.el, a)], IF t.real THEN c.realmass[a] ELSE 1000 * c.mass[a], 1),
   charges |-> IF t.ch THEN t.charges = [n \in 1..Len(E) |-> 1000 * c.charge[AtomOf(t.sc, n)]] ELSE t.charges = <<>>]

Check(t) ==
  IF t.died THEN {"refused:" \o t.task}
  ELSE LET c == Cr[t.c]
           r == IF t.task = "read" THEN ReadOK(c, t) ELSE IF t.task = "vasp" THEN Vasp(c, t) ELSE Lammps(c, t)
       IN {"wrong:" \o t.task \o ":" \o f : f \in {f \in DOMAIN r : ~r[f]}}

Init == i = 1 /\ bad = <<>>
Next ==
  \/ /\ i <= Len(Traces)
     /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 0, clause |-> s] : s \in Check(Traces[i])})
     /\ i' = i + 1
  \/ /\ i = Len(Traces) + 1
     /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
     /\ i' = i + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
