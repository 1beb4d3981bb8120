-------------------------------- MODULE Bands --------------------------------
(***************************************************************************)
(* Phonon branches along paths of wave vectors and on a mesh.              *)
(* At each wave vector there are levels (in order of frequency) of two     *)
(* force constants, harmonic and renormalized.  Branches follow the        *)
(* eigenvectors of the harmonic levels along a path, and each is paired    *)
(* with the renormalized level of its eigenvector.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumOver(_, _)
SumOver(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumOver(f, s \ {x})
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : f[a] = f[b] => a = b}
\* ------------------------------------------------ pairing
Total(M, f) == SumOver([k \in DOMAIN M |-> M[k][f[k]]], DOMAIN M)
\* the pairs of largest overlap: each level once
Pairings(M, P) == LET best == CHOOSE t \in {Total(M, f) : f \in P} : \A f \in P : Total(M, f) <= t IN {f \in P : Total(M, f) = best}
\* as a program could do it, line by line: not each level once
Largest(M) == {f \in [DOMAIN M -> DOMAIN M] : \A a \in DOMAIN M : \A b \in DOMAIN M : M[a][b] <= M[a][f[a]]}
\* ------------------------------------------------ paths (wave vectors: integers over Den; points: over Den x res)
Den == 24
Point(p, res, i) == [k \in 1..3 |-> p[1][k] * res + (p[2][k] - p[1][k]) * i]
\* the marks of the axis: one for each start of a path, one for the end
Marks(labels) == LET n == Len(labels) IN
  [k \in 1..n + 1 |-> IF k = 1 THEN <<labels[1][1]>> ELSE IF k = n + 1 THEN <<labels[n][2]>>
                      ELSE IF labels[k - 1][2] = labels[k][1] THEN <<labels[k][1]>> ELSE <<labels[k - 1][2], labels[k][1]>>]
\* lattices: metric of the primitive reciprocal vectors by 10^4 / Angstrom^2 (rounded)
Norm(g, v) == SumOver([a \in 1..3 |-> v[a] * SumOver([b \in 1..3 |-> g[a][b] * v[b]], 1..3)], 1..3)
=============================================================================
