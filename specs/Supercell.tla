------------------------------ MODULE Supercell ------------------------------
(***************************************************************************)
(* The order of the atoms of a supercell: atom by atom of the unit cell,   *)
(* its images with the first lattice vector running fastest; files give    *)
(* the elements as runs of equal ones.                                     *)
(***************************************************************************)
EXTENDS Lattice

Cells(sc) == sc[1] * sc[2] * sc[3]
AtomOf(sc, n) == ((n - 1) \div Cells(sc)) + 1
Image(sc, m) == <<m % sc[1], (m \div sc[1]) % sc[2], m \div (sc[1] * sc[2])>>   \* m from 0
ShiftOf(sc, n) == Image(sc, (n - 1) % Cells(sc))
SuperMat(H, sc) == << Times(sc[1], H[1]), Times(sc[2], H[2]), Times(sc[3], H[3]) >>

\* runs of equal elements of a sequence
RECURSIVE Expand(_, _)
Expand(names, counts) == IF names = <<>> THEN <<>>
  ELSE [n \in 1..Head(counts) |-> Head(names)] \o Expand(Tail(names), Tail(counts))
=============================================================================
