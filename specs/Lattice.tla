------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Exact integer geometry: cells are 3x3 integer matrices (rows = lattice  *)
(* vectors), positions integer vectors in the same unit.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

K == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
Round(num, den) == IF den > 0 THEN (2 * num + den) \div (2 * den) ELSE (2 * (-num) - den) \div (2 * (-den))

Cof(H, i, j) ==     \* cofactor
  LET a == (i % 3) + 1  b == ((i + 1) % 3) + 1
      c == (j % 3) + 1  d == ((j + 1) % 3) + 1
  IN H[a][c] * H[b][d] - H[a][d] * H[b][c]
Det(H) == H[1][1] * Cof(H, 1, 1) + H[1][2] * Cof(H, 1, 2) + H[1][3] * Cof(H, 1, 3)
\* inv(H) = Adj(H) / Det(H)
Adj(H) == << <<Cof(H, 1, 1), Cof(H, 2, 1), Cof(H, 3, 1)>>, <<Cof(H, 1, 2), Cof(H, 2, 2), Cof(H, 3, 2)>>,
             <<Cof(H, 1, 3), Cof(H, 2, 3), Cof(H, 3, 3)>> >>

\* row vector times matrix
\* (tuples, not functions: TLC evaluates them at once)
VM(v, M) == << v[1] * M[1][1] + v[2] * M[2][1] + v[3] * M[3][1], v[1] * M[1][2] + v[2] * M[2][2] + v[3] * M[3][2],
               v[1] * M[1][3] + v[2] * M[2][3] + v[3] * M[3][3] >>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Plus(a, b)  == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Times(c, a) == <<c * a[1], c * a[2], c * a[3]>>

\* fractional coordinates (numerators over Det)
FracNum(v, H) == VM(v, Adj(H))

\* v is a lattice vector of H
IsLattice(v, H) == LET f == FracNum(v, H)  d == Abs(Det(H)) IN f[1] % d = 0 /\ f[2] % d = 0 /\ f[3] % d = 0

\* displacement d reduced so that its fractional coordinates lie within half a cell
Reduce(d, H) ==
  LET f == FracNum(d, H)
      dt == Det(H)
      n == <<Round(f[1], dt), Round(f[2], dt), Round(f[3], dt)>>
  IN Minus(d, VM(n, H))

WithinHalf(d, H) == \A k \in K : 2 * Abs(FracNum(d, H)[k]) <= Abs(Det(H))
=============================================================================
