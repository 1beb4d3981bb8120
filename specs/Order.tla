-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Finding the order of the atoms: a file gives the atoms of a supercell   *)
(* in any order, displaced from their sites and at any periodic image.     *)
(* Each atom is given the closest site of the unit cell and the image of   *)
(* it modulo the supercell.                                                *)
(***************************************************************************)
EXTENDS Supercell, FiniteSets, TLC

CONSTANTS Cell, Sites, Sc, Disps, Wraps

NS == Len(Sites) * Cells(Sc)
H == SuperMat(Cell, Sc)
SitePos(n) == Plus(Sites[AtomOf(Sc, n)], VM(ShiftOf(Sc, n), Cell))
Perms == {p \in [1..NS -> 1..NS] : \A a, b \in 1..NS : a # b => p[a] # p[b]}

VARIABLES perm, x, j, template
vars == <<perm, x, j, template>>

Init == /\ perm \in Perms
        /\ \E d \in [1..NS -> Disps], w \in [1..NS -> Wraps] :
              x = [a \in 1..NS |-> Plus(Plus(SitePos(perm[a]), d[a]), VM(w[a], H))]
        /\ j = 1 /\ template = <<>>

Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
\* residue of atom position v with respect to site k of the unit cell, and its lattice point
Res(v, k) == Reduce(Minus(v, Sites[k]), Cell)
Point(v, k) == LET f == FracNum(Minus(v, Sites[k]), Cell) IN [b \in K |-> Round(f[b], Det(Cell))]
Closest(v) == LET r == [k \in 1..Len(Sites) |-> Sq(Res(v, k))]
              IN CHOOSE k \in 1..Len(Sites) : \A l \in 1..Len(Sites) : r[k] <= r[l]

Assign ==
  /\ j <= NS
  /\ LET k == Closest(x[j])
         p == Point(x[j], k)
         im == [b \in K |-> p[b] % Sc[b]]
     IN template' = Append(template, (k - 1) * Cells(Sc) + im[1] + Sc[1] * (im[2] + Sc[2] * im[3]) + 1)
  /\ j' = j + 1 /\ UNCHANGED <<perm, x>>
Spec == Init /\ [][Assign]_vars

\* every atom at its site: what the file gave in order perm comes out in the order of the sites
Found == j > 1 => template[j - 1] = perm[j - 1]
Delivered == j > NS => \A a \in 1..NS : LET d == Minus(x[a], SitePos(template[a])) IN \E e \in Disps : IsLattice(Minus(d, e), H)
=============================================================================
