-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Displacement of an atom from its site in a periodic cell of one, two or *)
(* three dimensions: raw position less site less the lattice vector that   *)
(* brings it within half a lattice vector along each of them.              *)
(* The atom moves, jumps by lattice vectors, and the trajectory so far is  *)
(* asked for.  Integers; cells have lattice vectors as rows.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, Moves, Images, Ns
Cells == <<
  << <<<<5>>>>, <<<<-8>>>>, <<<<3>>>> >>,
  << <<<<4, 0>>, <<0, 6>>>>, <<<<5, 0>>, <<3, 4>>>>, <<<<2, 5>>, <<-4, 3>>>>, <<<<1, 6>>, <<7, -2>>>> >>,
  << <<<<4, 0, 0>>, <<0, 5, 0>>, <<0, 0, 6>>>>, <<<<6, 0, 0>>, <<-3, 5, 0>>, <<2, -2, 4>>>>, <<<<0, 4, 0>>, <<-5, 0, 0>>, <<0, 0, -3>>>>,
     <<<<1, 4, 4>>, <<5, 0, 3>>, <<3, 5, -1>>>>, <<<<0, 3, 3>>, <<3, 0, 3>>, <<3, 3, 0>>>>, <<<<7, 2, 0>>, <<9, 7, 1>>, <<-6, 4, 5>>>> >> >>
VARIABLES n, cell, site, at, path, lay, hist
vars == <<n, cell, site, at, path, lay, hist>>
Abs(x) == IF x < 0 THEN -x ELSE x
Add(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
Sub(x, y) == [k \in 1..Len(x) |-> x[k] - y[k]]
Mul(m, x) == [k \in 1..Len(x) |-> m * x[k]]
Zero(d) == [k \in 1..d |-> 0]
Det(M) == CASE Len(M) = 0 -> 1
            [] Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1]) + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
\* coordinate i of x along the lattice vectors, times Det (Cramer)
Along(M, x, i) == Det([M EXCEPT ![i] = x])
Lattice(M, x) == \A i \in 1..Len(M) : Along(M, x, i) % Abs(Det(M)) = 0
Within(M, x) == \A i \in 1..Len(M) : 2 * Abs(Along(M, x, i)) <= Abs(Det(M))
Tie(M, x) == \E i \in 1..Len(M) : 2 * Abs(Along(M, x, i)) = Abs(Det(M))
\* d is the displacement of r from s (either way when half way)
IsDisp(M, s, r, d) == Lattice(M, Sub(Sub(r, s), d)) /\ Within(M, d)

\* ----------------------------------------------- as the program does it
\* cofactors, by expansion along the first row
Minor(M, i, j) == [a \in 1..Len(M) - 1 |-> [b \in 1..Len(M) - 1 |-> M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
SumUp(n0, f(_)) == LET t[i \in 0..n0] == IF i = 0 THEN 0 ELSE t[i - 1] + f(i) IN t[n0]
Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
RECURSIVE Expand(_)
Expand(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
             ELSE SumUp(Len(M), LAMBDA j : Sign(j + 1) * M[1][j] * Expand(Minor(M, 1, j)))
Inverse(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> Sign(i + j) * Expand(Minor(M, j, i))]]     \* times Expand(M)
\* nearest integer to a / b, halves away from zero
Round(a, b) == LET x == IF b < 0 THEN -a ELSE a  y == Abs(b)  s == IF x < 0 THEN -1 ELSE 1 IN s * ((2 * Abs(x) + y) \div (2 * y))
Dot(x, y) == CASE Len(x) = 1 -> x[1] * y[1] [] Len(x) = 2 -> x[1] * y[1] + x[2] * y[2] [] OTHER -> x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Column(M, k) == [i \in 1..Len(M) |-> M[i][k]]
\* inverses by columns
Inv == [d \in 1..3 |-> [c \in 1..Len(Cells[d]) |-> [k \in 1..d |-> Column(Inverse(Cells[d][c]), k)]]]
Dets == [d \in 1..3 |-> [c \in 1..Len(Cells[d]) |-> Expand(Cells[d][c])]]
Nearest(d, c, x) ==
  LET M == Cells[d][c]
      f == [i \in 1..d |-> Round(Dot(x, Inv[d][c][i]), Dets[d][c])]
  IN [k \in 1..d |-> x[k] - Dot(f, Column(M, k))]
ASSUME \A d \in 1..3 : \A c \in 1..Len(Cells[d]) : LET M == Cells[d][c] IN
         Expand(M) = Det(M) /\ \A i, k \in 1..d : SumUp(d, LAMBDA j : M[i][j] * Inverse(M)[j][k]) = IF i = k THEN Expand(M) ELSE 0

\* ----------------------------------------------- behaviour
Note(op, v) == hist' = Append(hist, [op |-> op, v |-> v])
Init == \E d \in Ns : n = d /\ cell = 1 /\ site = Zero(d) /\ at = Zero(d) /\ path = <<>> /\ lay = 0 /\ hist = <<[op |-> "dim", v |-> <<d>>]>>
M0 == Cells[n][cell]
Go(x) == at' = x /\ path' = Append(path, x)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in 1..n, m \in Moves : Go([at EXCEPT ![k] = @ + m]) /\ UNCHANGED <<n, cell, site, lay>> /\ Note("step", <<k, m>>)
           \/ \E k \in 1..n, m \in Images : Go(Add(at, Mul(m, M0[k]))) /\ UNCHANGED <<n, cell, site, lay>> /\ Note("hop", <<k, m>>)
           \/ \E k \in 1..n, m \in Moves : site' = [site EXCEPT ![k] = @ + m] /\ UNCHANGED <<n, cell, at, path, lay>> /\ Note("site", <<k, m>>)
           \/ \E c \in 1..Len(Cells[n]) : c # cell /\ cell' = c /\ UNCHANGED <<n, site, at, path, lay>> /\ Note("cell", <<c>>)
           \/ path # <<>> /\ path' = <<>> /\ UNCHANGED <<n, cell, site, at, lay>> /\ Note("forget", <<>>)
           \/ \E l \in 0..3 : l # lay /\ lay' = l /\ UNCHANGED <<n, cell, site, at, path>> /\ Note("layout", <<l>>)
           \/ path # <<>> /\ hist[Len(hist)].op # "ask" /\ UNCHANGED <<n, cell, site, at, path, lay>> /\ Note("ask", <<>>)
Spec == Init /\ [][Next]_vars
View == <<n, cell, site, at, Len(hist)>>
\* ----------------------------------------------- properties
D0 == Nearest(n, cell, Sub(at, site))
Answered == IsDisp(M0, site, at, D0)
\* nothing else is an answer, short of ties
Unique == ~Tie(M0, D0) => \A v \in [1..n -> -1..1] :
            LET x == [k \in 1..n |-> D0[k] + Dot(v, Column(M0, k))] IN IsDisp(M0, site, at, x) => x = D0
\* jumping by lattice vectors changes nothing
Same == [][(hist'[Len(hist')].op = "hop" /\ ~Tie(M0, D0)) => Nearest(n, cell, Sub(at', site)) = D0]_vars
\* short moves are seen as they are
Follows == [][hist'[Len(hist')].op = "step" =>
             LET v == Sub(at', at)
             IN (\A i \in 1..n : 2 * Abs(Along(M0, D0, i) + Along(M0, v, i)) < Abs(Det(M0))) => Nearest(n, cell, Sub(at', site)) = Add(D0, v)]_vars
=============================================================================
