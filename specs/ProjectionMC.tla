---------------------------- MODULE ProjectionMC ----------------------------
(* projection step by step over the atoms (as the code does) and what a user relies on *)
EXTENDS Projection, TLC

Cases == << [F4 |-> <<<<0, 0, 0>>, <<2, 0, 0>>>>, type |-> <<1, 2>>, nt |-> 2, W |-> <<1, 2>>, PM2 |-> <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, sc |-> <<2, 1, 1>>],
            [F4 |-> <<<<0, 0, 0>>, <<0, 2, 2>>>>, type |-> <<1, 1>>, nt |-> 1, W |-> <<2, 2>>, PM2 |-> <<<<2, 0, 0>>, <<0, 1, -1>>, <<0, 1, 1>>>>, sc |-> <<1, 2, 1>>],
            [F4 |-> <<<<0, 0, 0>>>>, type |-> <<1>>, nt |-> 1, W |-> <<3>>, PM2 |-> <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, sc |-> <<4, 1, 1>>] >>
Vals == {<<0, 0>>, <<1, 0>>, <<-2, 0>>}
Q4 == {<<a, b, c>> : a, b, c \in -1..3}

VARIABLES c, q, v, n, acc, one
vars == <<c, q, v, n, acc, one>>
NA(x) == Len(Cases[x].F4) * Cells(Cases[x].sc)
C == Cases[c]
qu == QU(q, C.PM2)

Init == /\ c \in 1..Len(Cases)
        /\ q \in {x \in Q4 : Exact(x, Cases[c].PM2, Cases[c].F4) /\ Commensurate(x, 4, Cases[c].PM2, Cases[c].sc)}
        /\ v \in [1..NA(c) -> Vals]
        /\ n = 1 /\ acc = [t \in 1..C.nt |-> CZero] /\ one = acc
Add == /\ n <= NA(c)
       /\ LET a == AtomOf(C.sc, n)
              z == CMul(CScale(C.W[a], v[n]), IPow(-Phase(qu, C.F4, C.sc, n)))
          IN /\ acc' = [acc EXCEPT ![C.type[a]] = CAdd(@, z)]
             /\ one' = IF C.type[a] = 1 THEN [one EXCEPT ![1] = CAdd(@, z)] ELSE one
       /\ n' = n + 1 /\ UNCHANGED <<c, q, v>>
Spec == Init /\ [][Add]_vars

Done == n > NA(c)
P(x, w, only) == Projected(w, C.W, C.F4, C.type, C.nt, QU(x, C.PM2), C.sc, only)
Is == Done => acc = P(q, v, 0)
\* one type of atom: that part, nothing else; the parts add up
Part == Done => one = P(q, v, 1)
Parts == Done => acc = [t \in 1..C.nt |-> CSum([u \in 1..C.nt |-> P(q, v, u)[t]])]
\* real velocities: opposite wave vectors are conjugate
Opposite == Done => P(Times(-1, q), v, 0) = [t \in 1..C.nt |-> CConj(acc[t])]
\* a reciprocal lattice vector more changes no modulus
Periodic == Done => \A k \in K : LET g == [j \in K |-> IF j = k THEN q[j] + 4 ELSE q[j]]
                                 IN Exact(g, C.PM2, C.F4) => \A t \in 1..C.nt : CNorm(P(g, v, 0)[t]) = CNorm(acc[t])
\* linear
Linear == Done => P(q, [m \in 1..NA(c) |-> CScale(3, v[m])], 0) = [t \in 1..C.nt |-> CScale(3, acc[t])]
\* a wave vector of the supercell sees no boundary: moving all velocities by a lattice vector is a phase
Moved(w, k) == [m \in 1..NA(c) |->
   LET s == ShiftOf(C.sc, m)  s2 == [j \in K |-> IF j = k THEN (s[j] + 1) % C.sc[j] ELSE s[j]]
   IN w[(AtomOf(C.sc, m) - 1) * Cells(C.sc) + s2[1] + C.sc[1] * (s2[2] + C.sc[2] * s2[3]) + 1]]
Bloch == Done => \A k \in K : LET p == P(q, Moved(v, k), 0)
                              IN \A t \in 1..C.nt : p[t] = CMul(acc[t], IPow(qu[k]))
\* with every wave vector of the supercell, nothing of the kinetic energy is lost (third case: q = 0, 1/4, 1/2, 3/4)
Parseval == (Done /\ c = 3) =>
   LET e == [x \in 1..4 |-> CNorm(P(<<x - 1, 0, 0>>, v, 0)[1])] IN
   e[1] + e[2] + e[3] + e[4] = 4 * 9 * (CNorm(v[1]) + CNorm(v[2]) + CNorm(v[3]) + CNorm(v[4]))
=============================================================================
