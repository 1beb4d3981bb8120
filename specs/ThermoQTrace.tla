---------------------------- MODULE ThermoQTrace ----------------------------
EXTENDS ThermoQ
Job == JsonDeserialize("traces.json")
Traces == Job.traces
VARIABLES i, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(n, f(_)) == FoldLeft(LAMBDA x, k : x + f(k), 0, [k \in 1..n |-> k])
\* products with three figures less, rounded
Mul(a, b) == (a \div 1000) * b + ((a % 1000) * b + 500) \div 1000
\* integral of density d times property p (times 1000)
Inte(t, d, p) == Sum(Len(t.w), LAMBDA k : Mul(Mul(t.w[k], d[k]), p[k]))
Ones(t) == [k \in 1..Len(t.w) |-> 1000]
\* integral of the density over three times the number of atoms, times 10^6
Share(t, d) == Inte(t, d, Ones(t)) \div (3 * Units(t.v.crystal))
\* normalized: as if the density had the integral of all the atoms, shared equally by those of the primitive cell
Scaled(t, x, share) == IF ~t.v.norm THEN x
                       ELSE LET y == (x \div share) * 1000000 + (((x % share) * 1000) \div share) * 1000
                            IN IF t.v.atom >= 0 THEN y \div Atoms(t.v.crystal) ELSE y
Expected(t) ==
  LET S(p) == Scaled(t, Inte(t, t.d, p), Share(t, t.d))
      H(p) == Scaled(t, Inte(t, t.h, p), Share(t, t.h))
      corr == IF t.v.fc = 0 THEN 0 ELSE (H(t.u) - S(t.u)) \div 2
  IN [free |-> S(t.f) + corr, entropy |-> S(t.s), heat |-> S(t.c), energy |-> S(t.u) + corr,
      integral |-> IF ~t.v.norm THEN Share(t, t.d) ELSE IF t.v.atom >= 0 THEN 1000000 \div Atoms(t.v.crystal) ELSE 1000000]
Near(a, b, scale) == Abs(a - b) <= 3000 + scale \div 250
Judge(t) ==
  IF t.died THEN {"refused"}
  ELSE LET x == Expected(t)  r == t.obs  m == Abs(x.energy)
           ok == [free |-> Near(r.free, x.free, m), entropy |-> Near(r.entropy, x.entropy, Abs(x.entropy)),
                  heat |-> Near(r.heat, x.heat, Abs(x.heat)), energy |-> Near(r.energy, x.energy, m),
                  integral |-> Abs(r.integral - x.integral) <= 4000,
                  \* all the phonons: three per atom
                  number |-> t.v.range # 1 \/ t.v.atom >= 0 \/ Abs(Share(t, t.h) - 1000000) < 150000,
                  \* those of the atoms (of the primitive cell) are all the phonons
                  atoms |-> t.v.range # 1 \/ Abs(FoldLeft(LAMBDA a, b : a + b, 0, t.parts) - 1000000) < 150000,
                  \* the mean squared frequency of the phonons of an atom is the one it has alone, all others held (THz^2/1000)
                  whose |-> t.v.range # 1 \/ \A k \in DOMAIN t.second : Abs(t.second[k] - t.onsite[k]) < t.onsite[k] \div 12]
       IN {k \in DOMAIN ok : ~ok[k]}
TInit == i = 1 /\ bad = <<>> /\ c = 0 /\ todo = FALSE
TNext == /\ i <= Len(Traces) /\ i' = i + 1 /\ UNCHANGED <<c, todo>>
         /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 1, clause |-> s] : s \in Judge(Traces[i])})
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<c, todo, i, bad>>
=============================================================================
