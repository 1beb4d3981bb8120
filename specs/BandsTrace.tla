----------------------------- MODULE BandsTrace -----------------------------
(***************************************************************************)
(* Bands and meshes of real calculations, next to the levels of phonopy    *)
(* for the harmonic force constants and those that hold the frequencies    *)
(* (r), upper and lower limits (p, m) and widths (w) of the trajectory.    *)
(* Frequencies in 10^-4 THz, distances in 10^-5, squares of overlaps in %. *)
(***************************************************************************)
EXTENDS Bands, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Traces == Job.traces
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 12
Near(a, b) == Abs(a - b) <= Tol
Close(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k])
SortInts(s) == SortSeq(s, <)
VARIABLES i, bad
\* ------------------------------------------------ levels of two sets at one wave vector
Level(f, l) == {m \in DOMAIN f : Abs(f[m] - f[l]) <= 30}
\* the level of g that holds the eigenvector of level a of f (0: none does)
Holds(M, g, a) == LET s == {l \in DOMAIN g : SumOver(M[a], Level(g, l)) >= 95} IN IF s = {} THEN 0 ELSE CHOOSE l \in s : TRUE
Clear(M, g) == \A a \in DOMAIN M : Holds(M, g, a) # 0
\* where it is clear, each pair found is a level and the one that holds its eigenvector
Pairs(M, f, g, x, y) == Clear(M, g) => \A b \in DOMAIN x : \E a \in DOMAIN f : Abs(x[b] - f[a]) <= Tol /\ Abs(y[b] - g[Holds(M, g, a)]) <= Tol + 30 * (Cardinality(Level(g, Holds(M, g, a))) - 1)
At(rows, k) == [b \in DOMAIN rows |-> rows[b][k]]
\* ------------------------------------------------ bands
Path(v, B, pth, ref, k) ==
  LET N == v.res + 1
      D == DOMAIN pth.harmonic_frequencies
      full(rows) == DOMAIN rows = D /\ \A b \in D : Len(rows[b]) = N
      h(z) == At(pth.harmonic_frequencies, z)
      r(z) == At(pth.renormalized_frequencies, z)
      p(z) == At(pth.linewidth_plus, z)
      m(z) == At(pth.linewidth_minus, z)
      dense == full(pth.harmonic_frequencies) /\ full(pth.renormalized_frequencies) /\ full(pth.frequency_shifts) /\ (B.wide => full(pth.linewidth_plus) /\ full(pth.linewidth_minus) /\ full(pth.linewidth))
      go(a, z) == Holds(ref.hh[z], ref.h[z + 1], a)
      cases == [ keys |-> pth.keys = IF B.wide THEN <<"frequency_shifts", "harmonic_frequencies", "linewidth", "linewidth_minus", "linewidth_plus", "renormalized_frequencies">>
                                     ELSE <<"frequency_shifts", "harmonic_frequencies", "renormalized_frequencies">>,
                 bounds |-> pth.inf = [c \in 1..3 |-> (v.paths[k][1][c] * 1000000) \div 24] /\ pth.sup = [c \in 1..3 |-> (v.paths[k][2][c] * 1000000) \div 24],
                 labels |-> pth.labels = IF v.labelled THEN v.names[k] ELSE <<>>,
                 distance |-> Len(pth.dist) = N /\ \A z \in 1..N : Abs(pth.dist[z] - ref.dist[z]) <= 2,
                 dense |-> dense,
                 harmonic |-> dense => \A z \in 1..N : Close(SortInts(h(z)), ref.h[z]),
                 renormalized |-> dense => \A z \in 1..N : Close(SortInts(r(z)), SortInts(ref.r[z])),
                 plus |-> (dense /\ B.wide) => \A z \in 1..N : Close(SortInts(p(z)), SortInts(ref.p[z])),
                 minus |-> (dense /\ B.wide) => \A z \in 1..N : Close(SortInts(m(z)), SortInts(ref.m[z])),
                 shift |-> dense => \A z \in 1..N : \A b \in D : Abs(pth.frequency_shifts[b][z] - (r(z)[b] - h(z)[b])) <= 2,
                 width |-> (dense /\ B.wide) => \A z \in 1..N : \A b \in D : Abs(pth.linewidth[b][z] - (p(z)[b] - m(z)[b])) <= 2,
                 \* in order of frequency, or paired
                 sorted |-> (dense /\ ~B.connect) => \A z \in 1..N : r(z) = SortInts(r(z)) /\ (~B.inter \/ k = 1 => h(z) = SortInts(h(z))) /\ (B.wide => p(z) = SortInts(p(z)) /\ m(z) = SortInts(m(z))),
                 paired |-> (dense /\ B.connect) => \A z \in 1..N : Pairs(ref.hr[z], ref.h[z], ref.r[z], h(z), r(z)),
                 pairedplus |-> (dense /\ B.connect /\ B.wide) => \A z \in 1..N : Pairs(ref.hp[z], ref.h[z], ref.p[z], h(z), p(z)),
                 pairedminus |-> (dense /\ B.connect /\ B.wide) => \A z \in 1..N : Pairs(ref.hm[z], ref.h[z], ref.m[z], h(z), m(z)),
                 \* branches go on with their eigenvectors
                 follows |-> (dense /\ B.connect) => \A z \in 1..v.res : Clear(ref.hh[z], ref.h[z + 1]) =>
                               \A b \in D : \E a \in D : Abs(h(z)[b] - ref.h[z][a]) <= Tol /\ Abs(h(z + 1)[b] - ref.h[z + 1][go(a, z)]) <= Tol + 30 * (Cardinality(Level(ref.h[z + 1], go(a, z))) - 1)]
  IN {c \in DOMAIN cases : ~cases[c]}
\* a path that starts where the one before ends goes on with its branches
Joined(v, B) == B.inter => \A k \in 2..Len(B.paths) : v.paths[k][1] = v.paths[k - 1][2] =>
                  LET a == B.paths[k - 1].harmonic_frequencies  b == B.paths[k].harmonic_frequencies IN \A x \in DOMAIN a : Abs(a[x][v.res + 1] - b[x][1]) <= Tol
Bnds(t, B) == IF Len(B.paths) # Len(t.v.paths) THEN {"paths"} ELSE UNION {Path(t.v, B, B.paths[k], t.ref[k], k) : k \in DOMAIN B.paths} \cup (IF Joined(t.v, B) THEN {} ELSE {"joined"})
\* ------------------------------------------------ mesh
MeshBad(t) ==
  LET n == DOMAIN t.mesh
      pt(k) == {x \in DOMAIN t.points : \A c \in 1..3 : Abs((t.points[x].q[c] - t.mesh[k].q[c]) % 1000000) \in {0, 1, 999999}}
      Bag(f, l) == SortSeq([a \in DOMAIN f |-> <<f[a], l[a]>>], LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
      cases == [ weights |-> SumOver([k \in n |-> t.mesh[k].w], n) = t.v.mesh[1] * t.v.mesh[2] * t.v.mesh[3],
                 meshfrequencies |-> \A k \in n : Close(t.mesh[k].f, SortInts(t.meshref[k].f)),
                 meshwidths |-> \A k \in n : Close(SortInts(t.mesh[k].l), SortInts(t.meshref[k].l)),
                 meshpairs |-> \A k \in n : Pairs(t.meshref[k].o, t.meshref[k].f, t.meshref[k].l, t.mesh[k].f, t.mesh[k].l),
                 \* at the wave vectors of the analysis: what the trajectory has there
                 meshpoints |-> \A k \in n : \A x \in pt(k) : \A a \in DOMAIN t.mesh[k].f : \E b \in DOMAIN t.points[x].f :
                                    Abs(t.mesh[k].f[a] - t.points[x].f[b]) <= 40 /\ Abs(t.mesh[k].l[a] - t.points[x].l[b]) <= 60,
                 meshfile |-> Len(t.meshfile) = Len(t.mesh) /\ \A k \in n : t.meshfile[k].w = t.mesh[k].w /\ \A c \in 1..3 : Abs(t.meshfile[k].q[c] - t.mesh[k].q[c]) <= 1
                              /\ (\A a \in DOMAIN t.mesh[k].f : Abs(t.meshfile[k].f[a] - t.mesh[k].f[a]) <= 1 /\ Abs(t.meshfile[k].l[a] - t.mesh[k].l[a]) <= 1) ]
  IN {c \in DOMAIN cases : ~cases[c]}
\* ------------------------------------------------ figures: lines of the axis x of the paths
RowsOf(B, key) == UNION {{[x |-> B.paths[k].dist, y |-> B.paths[k][key][b]] : b \in DOMAIN B.paths[k][key]} : k \in DOMAIN B.paths}
LinesOf(f) == {f.lines[k] : k \in DOMAIN f.lines}
MarkText(m) == IF Len(m) = 1 THEN m[1] ELSE m[1] \o "/" \o m[2]
MarksOk(t, f) == t.v.labelled => LET m == Marks(t.v.names)  n == Len(t.v.paths) IN
                   /\ f.at = [k \in 1..n + 1 |-> IF k <= n THEN t.bands.paths[k].dist[1] ELSE t.bands.paths[n].dist[t.v.res + 1]]
                   /\ f.marks = [k \in 1..n + 1 |-> MarkText(m[k])]
Meant(f) == IF f.title = "Phonon linewidths" THEN "linewidth" ELSE IF f.title = "Harmonic phonon dispersion relations" THEN "harmonic_frequencies"
            ELSE IF f.title = "Frequency shifts" THEN "frequency_shifts" ELSE "renormalized_frequencies"
Spots(f) == {f.spots[k] : k \in DOMAIN f.spots}
Corners(t, sign) == UNION {UNION {{<<t.bands.paths[k].dist[z], 2 * t.bands.paths[k].renormalized_frequencies[b][z] + sign * t.bands.paths[k].linewidth[b][z]>> : z \in 1..t.v.res + 1}
                           : b \in DOMAIN t.bands.paths[k].linewidth} : k \in DOMAIN t.bands.paths}
FigBad(t) ==
  LET F == t.figs
      one == Len(F) = 1
      cases == [ number |-> Len(F) = CASE t.v.fig = 0 -> 0 [] t.v.fig = 3 -> 4 [] OTHER -> 1,
                 lines |-> (t.v.fig = 1 /\ one => LinesOf(F[1]) = RowsOf(t.bands, "renormalized_frequencies") \cup RowsOf(t.bands, "harmonic_frequencies"))
                           /\ (t.v.fig = 2 /\ one => LinesOf(F[1]) = RowsOf(t.bands, "renormalized_frequencies"))
                           /\ (t.v.fig = 3 => {Meant(F[k]) : k \in DOMAIN F} = {"linewidth", "harmonic_frequencies", "frequency_shifts", "renormalized_frequencies"} /\ \A k \in DOMAIN F : LinesOf(F[k]) = RowsOf(t.bands, Meant(F[k]))),
                 marks |-> t.v.fig \in 1..3 => \A k \in DOMAIN F : MarksOk(t, F[k]),
                 fills |-> (t.v.fig = 2 /\ one) => LET S == UNION {{F[1].fills[k][z] : z \in DOMAIN F[1].fills[k]} : k \in DOMAIN F[1].fills} IN
                             \A sign \in {-1, 1} : \A c \in Corners(t, sign) : \E s \in S : Abs(s[1] - c[1]) <= 1 /\ Abs(2 * s[2] - c[2]) <= 4,
                 spots |-> (t.v.fig = 4 /\ one) => UNION {{F[1].spots[k][z] : z \in DOMAIN F[1].spots[k]} : k \in DOMAIN F[1].spots} = UNION {{<<t.mesh[k].f[a], t.mesh[k].l[a]>> : a \in DOMAIN t.mesh[k].f} : k \in DOMAIN t.mesh} ]
  IN {c \in DOMAIN cases : ~cases[c]}
SameRows(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Len(a[k]) = Len(b[k]) /\ \A z \in DOMAIN a[k] : Abs(a[k][z] - b[k][z]) <= 1
SameBands(a, b) == Len(a.paths) = Len(b.paths) /\ \A k \in DOMAIN a.paths :
  /\ a.paths[k].labels = b.paths[k].labels /\ a.paths[k].keys = b.paths[k].keys /\ SameRows(<<a.paths[k].dist, a.paths[k].inf, a.paths[k].sup>>, <<b.paths[k].dist, b.paths[k].inf, b.paths[k].sup>>)
  /\ \A key \in {"harmonic_frequencies", "renormalized_frequencies", "frequency_shifts", "linewidth_plus", "linewidth_minus", "linewidth"} : SameRows(a.paths[k][key], b.paths[k][key])
Judge(t) == IF t.died THEN {"refused"}
            ELSE Bnds(t, t.bands) \cup Bnds(t, t.full) \cup MeshBad(t) \cup FigBad(t) \cup (IF SameBands(t.file, t.full) THEN {} ELSE {"file"}) \cup (IF t.files = <<"bands_data.yaml", "mesh_data.yaml">> THEN {} ELSE {"files"})
TInit == i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (LET s == Judge(Traces[i]) IN
                           IF s = {} THEN <<>> ELSE LET f[x \in SUBSET s] == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<[trace |-> i, at |-> 1, clause |-> e]>> \o f[x \ {e}] IN f[s])
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<i, bad>>
=============================================================================
