-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* The tools that read files of other runs: what each gives depends on the *)
(* content of the files, not on the order their parts come in.             *)
(*                                                                         *)
(*  rfc_calc     a file of wave vectors, as a list in any order, written   *)
(*               with finite digits and in any zone; for each commensurate *)
(*               wave vector, in the order of the crystal, the file is     *)
(*               looked through for its frequencies.                       *)
(*  qha_extract  files of volumes (with energies), of free energies and of *)
(*               force constants, one of each per volume and in one order; *)
(*               sorted by volume before the fits.                         *)
(*  fitdata      a table read row by row; columns averaged in sets.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- wave vectors: p/N as integers, written with two digits (rounded) and shifted by whole lattice vectors
Round(a, b) == (2 * a + b) \div (2 * b)
Written(p, N, z) == Round(p * 100, N) + 100 * z
Near(a, b) == LET d == (IF a >= b THEN a - b ELSE b - a) % 100 IN d <= 1 \/ d >= 99
Same(w, p, N) == Near(w, Written(p, N, 0))                  \* what a comparison with tolerance sees
Equal(w, p, N) == w * N = 100 * p                           \* what an exact one does
\* ---- the three tools as functions of what they read
Found(file, p, N) == {k \in DOMAIN file : Same(file[k].w, p, N)}
First(S) == CHOOSE k \in S : \A l \in S : k <= l
Taken(file, N) == [p \in 0..N - 1 |-> IF Found(file, p, N) = {} THEN -1 ELSE file[First(Found(file, p, N))].f]
SumCols(row, set) == LET f[S \in SUBSET set] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN row[x] + f[S \ {x}] IN f[set]
Position(v, V) == CHOOSE k \in DOMAIN V : V[k] = v
=============================================================================
