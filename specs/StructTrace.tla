----------------------------- MODULE StructTrace -----------------------------
(***************************************************************************)
(* Recorded sessions with structures against Struct.  What must be         *)
(* answered is computed here exactly: cells in Angstrom (integers),        *)
(* positions in 1/16 Angstrom, primitive matrices in halves.               *)
(***************************************************************************)
EXTENDS Struct, StructDefs, Lattice, Json, SequencesExt, FiniteSetsExt

Job == JsonDeserialize("traces.json")
Cr == Job.crystals
Sup == Job.supers        \* supercells by number
Traces == Job.traces

VARIABLES i, j, bad
tvars == <<i, j, bad>>

NA(c) == Len(c.el)
SC(s) == IF s = 0 THEN <<1, 1, 1>> ELSE Sup[s]
Cells(sc) == sc[1] * sc[2] * sc[3]
\* atoms of a supercell: atom by atom of the unit cell, x fastest
Atom(sc, n) == ((n - 1) \div Cells(sc)) + 1
Shift(sc, n) == LET m == (n - 1) % Cells(sc) IN <<m % sc[1], (m \div sc[1]) % sc[2], m \div (sc[1] * sc[2])>>
U(M) == [a \in K |-> [b \in K |-> 16 * M[a][b]]]
SuperCell(c, sc) == [a \in K |-> [b \in K |-> sc[a] * c.cell[a][b]]]
PosOf(c, d) == c.pos[d.pos]
PmOf(c, d) == IF d.pm = 0 THEN [a \in K |-> [b \in K |-> IF a = b THEN 2 ELSE 0]] ELSE c.pm[d.pm]
MassOf(c, d) == c.mass[d.mass]

\* rows of the primitive cell in 1/16 Angstrom:  pm^T cell
Prim(c, d) == [a \in K |-> [b \in K |-> 8 * (PmOf(c, d)[1][a] * c.cell[1][b] + PmOf(c, d)[2][a] * c.cell[2][b] + PmOf(c, d)[3][a] * c.cell[3][b])]]

Equivalent(c, d, a, b) == /\ IsLattice(Minus(PosOf(c, d)[a], PosOf(c, d)[b]), Prim(c, d))
                          /\ MassOf(c, d)[a] = MassOf(c, d)[b]
Leader(c, d, a) == CHOOSE b \in 1..a : Equivalent(c, d, a, b) /\ \A x \in 1..b - 1 : ~Equivalent(c, d, a, x)
Repeat(c, sc, f) == [n \in 1..NA(c) * Cells(sc) |-> f[Atom(sc, n)]]

\* the types of every crystal for all its data, evaluated once
AllData == [pos : 1..NPos, pm : 0..NPm, mass : 1..NMass]
TypesOf == TLCEval([x \in 1..Len(Cr) |-> TLCEval([d \in AllData |->
             LET c == Cr[x]
                 ld == TLCEval([a \in 1..NA(c) |-> Leader(c, d, a)])
                 ls == TLCEval({a \in 1..NA(c) : ld[a] = a})
             IN TLCEval([leaders |-> ls, type |-> [a \in 1..NA(c) |-> Cardinality({y \in ls : y < ld[a]})]])])])

Near(v, x, tol) == Abs(v - x) <= tol
MatOK(v, M, s, tol) == \A a, b \in K : Near(v[a][b], s * M[a][b], tol)

Value(X, d, k, s, v) ==
  LET c == Cr[X]  sc == SC(s)  N == NA(c) * Cells(sc)
      T == TLCGet(1)[X][[pos |-> d.pos, pm |-> d.pm, mass |-> d.mass]]
      SP == TLCEval(LET u == TLCEval(U(c.cell))
                        sh == TLCEval([m \in 1..Cells(sc) |-> VM(Shift(sc, m), u)])
                    IN [n \in 1..N |-> TLCEval(Plus(PosOf(c, d)[Atom(sc, n)], sh[((n - 1) % Cells(sc)) + 1]))])
      SU == TLCEval(U(SuperCell(c, sc))) IN
  CASE k = "positions" -> Len(v) = N /\ \A n \in 1..N : \A b \in K : Near(v[n][b], 1000 * SP[n][b], 2)
    [] k = "scaled" -> /\ Len(v) = N      \* times 1e5: the position comes back
                       /\ \A n \in 1..N : LET p == TLCEval(VM(v[n], SU)) IN
                                          \A b \in K : Near(p[b], 100000 * SP[n][b], 1200)
    [] k = "cell" -> MatOK(v, SuperCell(c, sc), 1000, 1)
    [] k = "types" -> v = Repeat(c, sc, T.type)
    [] k = "masses" -> v = Repeat(c, sc, [a \in 1..NA(c) |-> 1000 * MassOf(c, d)[a]])
    [] k = "elements" -> v = Repeat(c, sc, c.el)
    [] k = "numbers" -> v = Repeat(c, sc, c.z)
    [] k = "charges" -> v = Repeat(c, sc, [a \in 1..NA(c) |-> 1000 * c.charge[a]])
    [] k = "unique" -> v = LET L == SetToSortSeq(T.leaders, <) IN [n \in 1..Len(L) |-> c.el[L[n]]]
    [] k = "params" -> LET H == SuperCell(c, sc) IN  \* a, b, c and a.b, ... from the angles, times 1000
                       /\ \A a \in K : LET q == H[a][1]*H[a][1] + H[a][2]*H[a][2] + H[a][3]*H[a][3] IN Near(v.len[a] * v.len[a], 1000000 * q, 4 * v.len[a])
                       /\ \A a \in K : LET x == (a % 3) + 1  y == ((a + 1) % 3) + 1 IN
                             Near(v.dot[a], 1000 * (H[x][1]*H[y][1] + H[x][2]*H[y][2] + H[x][3]*H[y][3]), 2)
    [] k = "primcell" -> MatOK(v, Prim(c, d), 1000, 1)
    [] k = "pm" -> MatOK(v, PmOf(c, d), 1000, 1)
    [] k \in {"ntypes", "nprim"} -> v = Cardinality(T.leaders)
    [] k = "natoms" -> v = NA(c)
    [] k = "fsuper" -> v = [a \in K |-> [b \in K |-> IF a # b THEN 0 ELSE IF data.force = 0 THEN 1 ELSE Forces[data.force].sc[a]]]

Put(s) == [trace |-> i, at |-> j, clause |-> s]
Reset == /\ made' = "" /\ data' = [pos |-> 1, pm |-> 1, mass |-> 1, force |-> 0] /\ kept' = [k \in {} |-> 0]

TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>> /\ TLCSet(1, TypesOf)

Event ==
  /\ i <= Len(Traces) /\ j <= Len(Traces[i].events)
  /\ LET e == Traces[i].events[j] IN
     /\ CASE e.op = "create" -> Create(e.k, e.v)
          [] e.op = "set"    -> Set(IF e.k = "dict" THEN "pm" ELSE e.k, e.k, e.v)
          [] e.op = "ask"    -> Ask(e.k, e.v)
     /\ LET cl == IF e.op # "ask" THEN IF e.died THEN {"failed:" \o e.k} ELSE {}
                  ELSE IF ~Answers(e.k) THEN IF e.died THEN {} ELSE {"answered:" \o e.k}
                  ELSE IF e.died THEN {"refused:" \o e.k}
                  ELSE IF Value(Traces[i].c, data, e.k, e.v, e.val) THEN {} ELSE {"wrong:" \o e.k}
        IN bad' = bad \o SetToSeq({Put(s) : s \in cl})
  /\ j' = j + 1 /\ UNCHANGED i

NextTrace ==
  /\ i <= Len(Traces) /\ j > Len(Traces[i].events)
  /\ bad' = bad \o (IF Traces[i].died THEN <<Put("session died")>> ELSE <<>>)
  /\ i' = i + 1 /\ j' = 1 /\ Reset /\ UNCHANGED hist

Done ==
  /\ i = Len(Traces) + 1 /\ j = 1
  /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
  /\ j' = 2 /\ UNCHANGED <<i, bad, svars>>

TSpec == TInit /\ [][Event \/ NextTrace \/ Done]_<<tvars, svars>>
=============================================================================
