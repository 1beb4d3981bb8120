------------------------------ MODULE ToolsTrace ------------------------------
(***************************************************************************)
(* What the real tools wrote and printed, against the content of their     *)
(* files (Tools.tla).  rfc: at each wave vector q (24ths) the frequencies  *)
(* given (10^-4 THz, in the order of the harmonic levels) and those that   *)
(* the force constants written have there.                                 *)
(***************************************************************************)
EXTENDS Tools, Json
Job == JsonDeserialize("traces.json")
Traces == Job.traces
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLES i, bad
Cells(v, t) == IF v.dim[1] = 0 THEN t.fc[1] * t.fc[2] * t.fc[3] ELSE v.dim[1] * v.dim[2] * v.dim[3]
Range(s) == {s[k] : k \in DOMAIN s}
Rfc(t) == [ waves |-> Len(t.q) = Cells(t.v, t) * t.prim /\ Cardinality(Range(t.q)) = Len(t.q),
            frequencies |-> \A k \in DOMAIN t.q : \A l \in DOMAIN t.want[k] : Abs(t.want[k][l] - t.got[k][l]) <= 8 + Abs(t.want[k][l]) \div 5000,
            eigenvectors |-> t.mixed <= 20,
            size |-> t.natom = t.cell * Cells(t.v, t),
            figure |-> t.v.plot # 0 => t.curves <= 20 /\ t.ncurves = t.wantcurves ]
Cp(t) == [ once |-> Cardinality(Range(t.q)) = Len(t.q),
           waves |-> Range(t.q) = Range(t.points) /\ Len(t.q) = Cells(t.v, t) * t.prim ]
Qha(t) == [ volume |-> t.converged => Abs(t.ratio - (100000 + (t.v.a1 * t.x) \div 10 + (((t.v.a2 * t.x) \div 10) * t.x) \div 100000)) <= 8,
            shape |-> t.rest <= 5 ]
Mean12(t, row, set) == (12 * SumCols(row, set)) \div Cardinality(set)
SetOf(s) == {s[k] : k \in DOMAIN s}
Fit(t) == [ rows |-> Len(t.out) = Len(t.rows),
            places |-> Len(t.out) = Len(t.rows) => \A k \in DOMAIN t.rows : t.f[k] = t.out[k][1],
            sets |-> \A k \in DOMAIN t.out : Len(t.out[k]) = Len(t.sets) + 1,
            averages |-> (t.v.smooth = 0 /\ Len(t.out) = Len(t.rows)) => \A k \in DOMAIN t.rows, s \in DOMAIN t.sets : Abs(t.out[k][s + 1] - Mean12(t, t.rows[k], SetOf(t.sets[s]))) <= 1,
            lines |-> (t.v.smooth > 0 /\ Len(t.out) = Len(t.rows)) => \A k \in DOMAIN t.rows, s \in DOMAIN t.sets : t.sets[s] = <<1>> => Abs(t.out[k][s + 1] - 12 * t.rows[k][1]) <= 2,
            smooth |-> (t.v.smooth > 0 /\ Len(t.out) = Len(t.rows)) => \A k \in DOMAIN t.rows, s \in DOMAIN t.sets : Abs(t.out[k][s + 1] - t.ref[k][s]) <= 2,
            fits |-> Len(t.fits) = Len(t.wantfits) /\ (Len(t.fits) = Len(t.wantfits) => \A k \in DOMAIN t.fits : Len(t.fits[k]) = Len(t.wantfits[k]) /\ \A l \in DOMAIN t.wantfits[k] : Abs(t.fits[k][l] - t.wantfits[k][l]) <= 5 + Abs(t.wantfits[k][l]) \div 500) ]
Clauses(t) == IF t.died THEN {"died"}
              ELSE LET cases == CASE t.v.tool = "rfc" -> Rfc(t) [] t.v.tool = "cp" -> Cp(t) [] t.v.tool = "qha" -> Qha(t) [] OTHER -> Fit(t)
                   IN {t.v.tool \o ":" \o x : x \in {y \in DOMAIN cases : ~cases[y]}}
TInit == i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (LET s == Clauses(Traces[i]) IN
                           IF s = {} THEN <<>> ELSE LET f[x \in SUBSET s] == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<[trace |-> i, at |-> 1, clause |-> e]>> \o f[x \ {e}] IN f[s])
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<i, bad>>
=============================================================================
