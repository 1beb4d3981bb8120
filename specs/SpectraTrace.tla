---------------------------- MODULE SpectraTrace ----------------------------
(* spectra calculated by the real code against Spectra *)
EXTENDS Spectra, Projection, ProjCrystals, Json, SequencesExt, FiniteSetsExt, TLC

Job == JsonDeserialize("traces.json")
Traces == Job.traces
VARIABLES i, bad, vague

\* (the set makes TLC evaluate its element once)
Only(S) == CHOOSE x \in S : TRUE
\* ---------------------------------------------- signals of each spectrum given
AtomSignal(t, a, k) == LET w == Crystals[t.c].W[AtomOf(t.sc, a)] IN [f \in 1..Len(t.vel) |-> <<w * t.vel[f][a][k], 0>>]
Vc(t) == LET r == Crystals[t.c]
             M == [f \in 1..Len(t.vel) |-> [k \in K |->
                   Projected([n \in 1..Len(t.vel[f]) |-> <<t.vel[f][n][k], 0>>], r.W, r.F4, r.type, r.nt, QU(t.q, r.PM2), t.sc, t.only)]]
         IN M
Groups(t) ==
  LET r == Crystals[t.c]  na == Len(t.vel[1])  nf == Len(t.vel) IN
  CASE t.task = "channels" -> [c \in 1..Len(t.v) |-> <<t.v[c]>>]
    [] t.task = "full" ->
       LET as == SelectSeq([a \in 1..na |-> a], LAMBDA a : t.only \in {0, r.type[AtomOf(t.sc, a)]})
       IN << [x \in 1..(3 * Len(as)) |-> AtomSignal(t, as[(x - 1) \div 3 + 1], ((x - 1) % 3) + 1)] >>
    [] t.task = "partials" -> [a \in 1..na |-> <<AtomSignal(t, a, 1), AtomSignal(t, a, 2), AtomSignal(t, a, 3)>>]
    [] t.task = "wave" ->
       Only({<< [x \in 1..(3 * r.nt) |-> [f \in 1..nf |-> m[f][((x - 1) % 3) + 1][(x - 1) \div 3 + 1]]] >> : m \in {Vc(t)}})
    [] t.task = "phonon" ->
       Only({[md \in 1..Len(t.ev) |-> << [f \in 1..nf |->
           CSum([x \in 1..(3 * r.nt) |-> CMul(m[f][((x - 1) % 3) + 1][(x - 1) \div 3 + 1], CConj(t.ev[md][(x - 1) \div 3 + 1][((x - 1) % 3) + 1]))])] >>] : m \in {Vc(t)}})

\* ------------------------------------------------------------- each algorithm
Part(v, x) == [f \in 1..Len(v) |-> v[f][x]]
Within(o, lo, hi) == lo <= o /\ o <= hi
Expect(t, g, k) ==
  CASE t.alg = 0 -> LET s == Isum([c \in 1..Len(g) |-> Direct(g[c], t.inc, t.meth = 0, k)], Len(g)) IN <<10 * s - 1, 10 * s + 1>>
    [] t.alg = 1 -> LET s == Isum([c \in 1..Len(g) |-> BurgSpectrum(Part(g[c], 1), t.order, k) + BurgSpectrum(Part(g[c], 2), t.order, k)], Len(g))
                    IN <<s - s \div 50 - 3 * Len(g), s + s \div 50 + 3 * Len(g)>>
    [] OTHER -> LET b == Sum2([c \in 1..Len(g) |-> FftBounds(g[c], t.p, k)]) IN <<b[1] - 2, b[2] + 2>>
\* one column of a table: [want |-> bounds, vague |-> fixed point too short]
Vague(t, g) == t.alg = 1 /\ \E c \in 1..Len(g), p \in 1..2 : BurgVague(Part(g[c], p), t.order, {t.ks[x] : x \in 1..Len(t.ks)})
\* frequencies the pieces of the FFT have: k/4 only for pieces of a multiple of four data
Known(t, k, n) == t.alg \in {0, 1} \/ k = 0 \/ PieceSize(n, t.p) % 4 = 0

Refuses(t) == t.alg = 1 /\ t.n <= t.order + 1
\* every spectrum is listed once, one number per frequency
Shape(t, G) == Len(t.obs) = Len(G) /\ \A g \in 1..Len(G) : Len(t.obs[g]) = Len(t.ks)
Judge(t, G) ==
  IF ~Shape(t, G) THEN [bad |-> {"shape:" \o t.task}, vague |-> 0]
  ELSE LET V == {g \in 1..Len(G) : Vague(t, G[g])}
           ok == \A g \in (1..Len(G)) \ V : \A x \in 1..Len(t.ks) :
                   Known(t, t.ks[x], t.n) => \E b \in {Expect(t, G[g], t.ks[x])} : Within(t.obs[g][x], b[1], b[2])
       IN [bad |-> IF ok THEN {} ELSE {"wrong:" \o t.task \o ":" \o <<"direct", "mem", "numpy", "fftw">>[t.alg + 1]}, vague |-> Cardinality(V)]
Verdict(t) ==
  IF Refuses(t) THEN [bad |-> IF t.died THEN {} ELSE {"accepted:" \o t.task}, vague |-> 0]
  ELSE IF t.died THEN [bad |-> {"refused:" \o t.task}, vague |-> 0]
  ELSE Only({Judge(t, G) : G \in {Groups(t)}})

Init == i = 1 /\ bad = <<>> /\ vague = 0
Next ==
  \/ /\ i <= Len(Traces)
     /\ \E t \in {Traces[i]} : \E v \in {Verdict(t)} :
        /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> 0, clause |-> s] : s \in v.bad})
        /\ vague' = vague + v.vague
     /\ i' = i + 1
  \/ /\ i = Len(Traces) + 1
     /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces), vague |-> vague])
     /\ i' = i + 1 /\ UNCHANGED <<bad, vague>>
Spec == Init /\ [][Next]_<<i, bad, vague>>
=============================================================================
