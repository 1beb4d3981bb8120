----------------------------- MODULE StarsTrace -----------------------------
(***************************************************************************)
(* Data of the commensurate wave vectors and force constants of real       *)
(* calculations.  Trajectories hold phonons of known frequencies, the same *)
(* over each star.  Frequencies in 10^-4 THz.                              *)
(***************************************************************************)
EXTENDS Stars, Json
Job == JsonDeserialize("traces.json")
Traces == Job.traces
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLES i, bad
Sq(x) == (x \div 100) * (x \div 100) + ((x % 100) * (x \div 50)) \div 100      \* of 10^-2 THz
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Judge(t) ==
  IF t.died THEN {"refused"}
  ELSE LET v == t.v
           sc == IF v.mdcell THEN v.md ELSE t.fcsc
           N == Len(t.q)
           n == v.crystal
           Modes == Len(t.own[1])
           Zero3 == {k \in 1..N : t.q[k] = <<0, 0, 0>>}
           ok == [points |-> {t.q[k] : k \in 1..N} = Points(n, sc) /\ N = Cardinality(Points(n, sc)) /\ t.q[1] = <<0, 0, 0>>,
                  number |-> Len(t.found) = N /\ Len(t.width) = N /\ Len(t.shift) = N,
                  \* each wave vector has the frequencies the trajectory has there
                  found |-> \A k \in 1..N : Len(t.found[k]) = Modes /\ \A s \in 1..Modes :
                                Abs(t.found[k][s] - t.own[k][s]) <= 600 + (IF v.fn = 2 /\ t.own[k][s] > 0 THEN (t.wide[k][s] * t.wide[k][s]) \div (2 * t.own[k][s]) ELSE 0),
                  width |-> \A k \in 1..N : \A s \in 1..Modes : IF k \in Zero3 /\ s <= 3 THEN t.width[k][s] = 0 ELSE v.fn = 2 \/ Abs(t.width[k][s] - t.wide[k][s]) < 800,
                  acoustic |-> \A k \in Zero3 : \A s \in 1..3 : t.found[k][s] = 0,
                  shift |-> \A k \in 1..N : (k \in Zero3) \/ Same(t.shift[k], [s \in 1..Modes |-> t.found[k][s] - t.harmonic[k][s]], 3),
                  \* the force constants have at each wave vector the mean square of its frequencies and those of the opposite one
                  force |-> \A k, m \in 1..N : t.q[m] = Opp(t.q[k]) =>
                              LET Near(s, u) == \E w \in 1..Modes : Abs(Sq(t.again[k][s]) - (Sq(t.found[k][u]) + Sq(t.found[m][w]) ) \div 2) <= (Abs(t.found[k][u]) \div 100 + 10) * (IF v.fcsym THEN 4 ELSE 1)
                              IN /\ \A s \in 1..Modes : \E u \in 1..Modes : Near(s, u)
                                 /\ \A u \in 1..Modes : \E s \in 1..Modes : Near(s, u),
                  transposed |-> t.transposed,
                  \* harmonic frequencies give back the harmonic force constants; c times the frequencies, c^2 times them
                  harmonic |-> t.back,
                  scaled |-> t.backscaled,
                  imaginary |-> t.imaginary]
       IN {k \in DOMAIN ok : ~ok[k]}
TInit == i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (LET s == Judge(Traces[i]) IN
                           IF s = {} THEN <<>> ELSE LET f[x \in SUBSET s] == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<[trace |-> i, at |-> 1, clause |-> e]>> \o f[x \ {e}] IN f[s])
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<i, bad>>
=============================================================================
