---------------------------- MODULE SpreadTrace ----------------------------
(* distributions answered (and written) by the real code; lengths in 1/16 Angstrom times the modulus of the direction, fixed point 10^-3 *)
EXTENDS Wrap, Spread, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Traces == Job.traces
NoSet == {}
\* displacements of all atoms in all steps of the crystals
Disp == [k \in DOMAIN Job.crystals |->
          LET c == Job.crystals[k]  M == c.H  det == Det(M)
              Of(x) == LET f == [q \in 1..3 |-> Round(Along(M, x, q), det)] IN [q \in 1..3 |-> x[q] - f[1] * M[1][q] - f[2] * M[2][q] - f[3] * M[3][q]]
          IN [t \in 1..Len(c.raw) |-> [a \in 1..Len(c.pos) |-> Of(Sub(c.raw[t][a], c.pos[a]))]]]
VARIABLES k0, kept, bins, i, j, bad
Crystal == Job.crystals[k0]
Steps == Len(Crystal.raw)
AtomsOf(y) == SelectSeq([a \in 1..Len(Crystal.pos) |-> a], LAMBDA a : Crystal.type[a] = y)
Along1(d, v) == d[1] * v[1] + d[2] * v[2] + d[3] * v[3]
Values(y, v) == LET l == AtomsOf(y) IN [m \in 1..(kept * Len(l)) |-> Along1(Disp[k0][Steps - kept + 1 + ((m - 1) % kept)][l[((m - 1) \div kept) + 1]], v)]
MinOf(s) == FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, s[1], s)
MaxOf(s) == FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, s[1], s)
Near(x, y, tol) == Abs(x - y) <= tol
Judge(e) ==
  IF e.op # "ask" THEN {}
  ELSE IF e.died THEN {"refused"}
  ELSE LET s == [y \in 1..Crystal.ntypes |-> Values(y, e.v)]
           los == [y \in 1..Crystal.ntypes |-> MinOf(s[y])]
           his == [y \in 1..Crystal.ntypes |-> MaxOf(s[y])]
           lo == MinOf(los)  hi == MaxOf(his)
           \* twice the number of bins times a place: lo + (m - 1/2) widths
           At(x, m, tol) == Near(2 * bins * x, 1000 * (2 * bins * lo + (2 * m - 1) * (hi - lo)), 2 * bins * tol)
           Counts(c) == \A y \in 1..Crystal.ntypes : IsCount(c[y], s[y], lo, hi, bins)
           shape == Len(e.count) = Crystal.ntypes /\ Len(e.file) = Crystal.ntypes /\ Len(e.place) = bins + 1 /\ Len(e.x) = bins
       IN IF ~shape THEN {"size"}
          ELSE (IF e.exact /\ Counts(e.count) THEN {} ELSE {"distribution"})
               \cup (IF \A m \in 0..bins : At(e.place[m + 1], m, 2) THEN {} ELSE {"bins"})
               \cup (IF e.filexact /\ Counts(e.file) THEN {} ELSE {"file: distribution"})
               \cup (IF \A m \in 1..bins : At(e.x[m], m, 6) THEN {}
                     ELSE IF \A m \in 1..bins : At(e.x[m], m - 1, 6) THEN {"file: places one bin low"} ELSE {"file: places"})
TInit == k0 = 1 /\ kept = 1 /\ bins = 30 /\ i = 1 /\ j = 1 /\ bad = <<>> /\ Init /\ n = 1
Step(e) ==
  CASE e.op = "make" -> k0' = e.v[1] /\ kept' = Len(Job.crystals[e.v[1]].raw) /\ bins' = 30
    [] e.op = "crop" -> kept' = (IF e.v[1] < kept THEN e.v[1] ELSE kept) /\ UNCHANGED <<k0, bins>>
    [] e.op = "bins" -> bins' = e.v[1] /\ UNCHANGED <<k0, kept>>
    [] OTHER -> UNCHANGED <<k0, kept, bins>>
TNext ==
  /\ UNCHANGED vars
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET x == Traces[i] IN
          IF j <= Len(x.events)
          THEN /\ Step(x.events[j])
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(x.events[j])})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<bad, k0, kept, bins>>
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, k0, kept, bins, i, j, bad>>
=============================================================================
