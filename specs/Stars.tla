-------------------------------- MODULE Stars --------------------------------
(***************************************************************************)
(* Commensurate wave vectors of a supercell and their stars under the      *)
(* symmetry of a crystal (with time reversal), and the loop that analyses  *)
(* the wave vectors one by one and takes the data of an equivalent one     *)
(* found before.  Wave vectors: integers over Den, by primitive            *)
(* reciprocal vectors.  Positions: integers over 60 of the unit cell.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Den == 24
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
\* metric of the unit cell (any unit), atoms, primitive matrix over 2, its inverse
Xtal == [
  tetra |-> [g |-> <<<<39 * 39, 0, 0>>, <<0, 39 * 39, 0>>, <<0, 0, 46 * 46>>>>, x |-> <<<<0, 0, 0>>, <<30, 30, 30>>>>, e |-> <<1, 2>>, p |-> I3, pd |-> 1, pi |-> I3],
  ortho |-> [g |-> <<<<36 * 36, 0, 0>>, <<0, 41 * 41, 0>>, <<0, 0, 48 * 48>>>>, x |-> <<<<0, 0, 0>>, <<30, 30, 30>>>>, e |-> <<1, 2>>, p |-> I3, pd |-> 1, pi |-> I3],
  tric  |-> [g |-> <<<<1444, 342, 266>>, <<342, 1845, -189>>, <<266, -189, 2486>>>>, x |-> <<<<3, 6, 1>>, <<32, 28, 33>>>>, e |-> <<1, 2>>, p |-> I3, pd |-> 1, pi |-> I3],
  conv  |-> [g |-> <<<<76 * 76, 0, 0>>, <<0, 41 * 41, 0>>, <<0, 0, 47 * 47>>>>, x |-> <<<<0, 0, 0>>, <<30, 0, 0>>, <<15, 30, 30>>, <<45, 30, 30>>>>, e |-> <<1, 1, 2, 2>>,
             p |-> <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, pd |-> 2, pi |-> <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>],
  bcc   |-> [g |-> I3, x |-> <<<<0, 0, 0>>, <<30, 30, 30>>>>, e |-> <<1, 1>>, p |-> <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>, pd |-> 2,
             pi |-> <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>],
  mono  |-> [g |-> <<<<784, 0, 0>>, <<0, 900, 0>>, <<0, 0, 1089>>>>, x |-> <<<<0, 0, 0>>>>, e |-> <<1>>, p |-> I3, pd |-> 1, pi |-> I3],
  hex   |-> [g |-> <<<<2, -1, 0>>, <<-1, 2, 0>>, <<0, 0, 5>>>>, x |-> <<<<20, 40, 6>>, <<40, 20, 36>>>>, e |-> <<1, 2>>, p |-> I3, pd |-> 1, pi |-> I3] ]
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Col(M, k) == <<M[1][k], M[2][k], M[3][k]>>
Row(x, M) == <<Dot(x, Col(M, 1)), Dot(x, Col(M, 2)), Dot(x, Col(M, 3))>>       \* x M
App(M, x) == <<Dot(M[1], x), Dot(M[2], x), Dot(M[3], x)>>                      \* M x
Neg(x) == <<-x[1], -x[2], -x[3]>>
Mod(x, d) == <<x[1] % d, x[2] % d, x[3] % d>>
\* ------------------------------------------------ point group of a crystal
E3 == {<<a, b, c>> : a \in -1..1, b \in -1..1, c \in -1..1}
Norm(g, v, w) == Dot(App(g, v), w)
\* columns: images of the lattice vectors, of the same lengths and angles
Metric(g) == LET L(k) == {v \in E3 : Norm(g, v, v) = g[k][k]}
             IN {m \in L(1) \X L(2) \X L(3) : Norm(g, m[1], m[2]) = g[1][2] /\ Norm(g, m[1], m[3]) = g[1][3] /\ Norm(g, m[2], m[3]) = g[2][3]}
Trans(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
Fits(c, R) == \E b \in DOMAIN c.x : c.e[b] = c.e[1] /\
                LET y == App(R, c.x[1])
                    t == <<c.x[b][1] - y[1], c.x[b][2] - y[2], c.x[b][3] - y[3]>>
                IN \A a \in DOMAIN c.x : \E d \in DOMAIN c.x : c.e[d] = c.e[a] /\
                     LET z == App(R, c.x[a]) IN Mod(<<z[1] + t[1] - c.x[d][1], z[2] + t[2] - c.x[d][2], z[3] + t[3] - c.x[d][3]>>, 60) = <<0, 0, 0>>
GroupOf(c) == {R \in {Trans(m) : m \in Metric(c.g)} : Fits(c, R)}
Group == [n \in DOMAIN Xtal |-> GroupOf(Xtal[n])]
\* operations on wave vectors by primitive reciprocal vectors (rows), times pd
Ops == [n \in DOMAIN Xtal |-> LET c == Xtal[n] IN {[k \in 1..3 |-> Row(Row(c.pi[k], R), c.p)] : R \in Group[n]}]
Image(n, q, O) == LET x == Row(q, O)  d == Xtal[n].pd IN <<x[1] \div d, x[2] \div d, x[3] \div d>>
Star(n, q) == LET s == {Mod(Image(n, q, O), Den) : O \in Ops[n]} IN s \cup {Mod(Neg(x), Den) : x \in s}
\* ------------------------------------------------ wave vectors commensurate with n1 x n2 x n3 unit cells
Commensurate(n, sc, q) == LET u == Row(q, Xtal[n].pi) IN \A k \in 1..3 : (u[k] * sc[k]) % Den = 0
Points(n, sc) == LET c == Xtal[n] IN
  {LET x == Row(<<(a[1] * Den) \div sc[1], (a[2] * Den) \div sc[2], (a[3] * Den) \div sc[3]>>, c.p) IN Mod(<<x[1] \div c.pd, x[2] \div c.pd, x[3] \div c.pd>>, Den) :
   a \in (0..2 * sc[1] - 1) \X (0..2 * sc[2] - 1) \X (0..2 * sc[3] - 1)}
\* ------------------------------------------------ as the program finds equivalent ones: images that are not negative, as they are
Found(n, q) == {q} \cup {x \in {Image(n, q, O) : O \in Ops[n]} \cup {Neg(Image(n, q, O)) : O \in Ops[n]} : \A k \in 1..3 : x[k] >= 0}
Opp(q) == Mod(Neg(q), Den)
=============================================================================
