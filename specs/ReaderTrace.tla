---------------------------- MODULE ReaderTrace ----------------------------
(***************************************************************************)
(* What the readers did with requests (and with files cut at every byte),  *)
(* against Reader.  data[t][x]: integer coordinates of the steps in the    *)
(* file; obs.data the ones delivered.                                      *)
(***************************************************************************)
EXTENDS Reader, Integers, Json, SequencesExt

Job == JsonDeserialize("traces.json")
Files == Job.files
Cases == Job.traces

VARIABLES i, bad
tvars == <<i, bad>>

Complete(f, cut) == Cardinality({t \in 1..Len(f.ends) : f.ends[t] <= cut})
\* complete apart from the end of the last line (its numbers are all there)
CompleteLax(f, cut) == Cardinality({t \in 1..Len(f.ends) : f.nums[t] <= cut})


Near(x, y) == x - y <= 1 /\ y - x <= 1
\* template: atom j of the file is atom tpl[j] of a delivered step
SameStep(o, x, tpl) == Len(o) = Len(x) /\ \A k \in 1..Len(x) :
    Len(o[tpl[k]]) = Len(x[k]) /\ \A q \in 1..Len(x[k]) : Near(o[tpl[k]][q], x[k][q])

Delivers(c, f, w) ==
  /\ Len(c.data) = Len(w) /\ Len(w) > 0
  /\ \A k \in 1..Len(w) : SameStep(c.data[k], f.data[w[k]], c.tpl)

TimesOK(c, f, w) ==
  /\ Len(c.time) = Len(w)
  /\ \A k \in 1..Len(w) : Near(c.time[k] - c.time[1], (f.stepno[w[k]] - f.stepno[w[1]]) * f.ts)
  \* the file says when its steps are (an OUTCAR does not)
  /\ f.t0 >= 0 => Near(c.time[1], f.t0 + f.stepno[w[1]] * f.ts)
CellOK(c, f) == Len(c.cell) = Len(f.cell) /\ \A k \in 1..Len(f.cell), l \in 1..3 : Near(c.cell[k][l], f.cell[k][l])
EnergyOK(c, f, w) == f.energy = <<>> \/
  (Len(c.energy) = Len(w) /\ \A k \in 1..Len(w) : Near(c.energy[k], f.energy[w[k]]))
VelOK(c, f, w) == f.vel = <<>> \/
  (Len(c.vel) = Len(w) /\ \A k \in 1..Len(w) : SameStep(c.vel[k], f.vel[w[k]], c.tpl))

Bad(c, f, n) ==
  LET w == Window(n, c.a, c.b, c.lim, c.last) IN
  IF w = <<>> THEN IF c.refused THEN {} ELSE {"steps out of an empty window"}
  ELSE IF c.refused THEN {"refused"}
  ELSE (IF Delivers(c, f, w) THEN {} ELSE {"steps"})
       \cup (IF TimesOK(c, f, w) THEN {} ELSE {"times"})
       \cup (IF CellOK(c, f) THEN {} ELSE {"cell"})
       \cup (IF EnergyOK(c, f, w) THEN {} ELSE {"energies"})
       \cup (IF VelOK(c, f, w) THEN {} ELSE {"velocities"})

Clauses(c) ==
  LET f == Files[c.f] IN
  IF c.kind = "window" THEN
     \* memory mapped reading has to know the end of the range
     IF c.mm /\ f.mapped /\ c.b = NoEnd THEN IF c.refused THEN {} ELSE Bad(c, f, Len(f.data))
     ELSE Bad(c, f, Len(f.data))
  ELSE  \* cut file: refused, or exactly the complete steps
     IF c.refused THEN {}
     ELSE LET s == Bad(c, f, Complete(f, c.cut)) IN
          IF s = {} \/ Bad(c, f, CompleteLax(f, c.cut)) = {} THEN {} ELSE s

Name(c) == Files[c.f].fmt \o (IF c.mm THEN ":memmap" ELSE ":memory")
Step ==
  /\ i <= Len(Cases)
  /\ LET c == Cases[i] IN
     bad' = bad \o SetToSeq({[trace |-> i, clause |-> c.kind \o ":" \o s \o ":" \o Name(c)] : s \in Clauses(c)})
                \o (IF c.left THEN <<[trace |-> i, clause |-> c.kind \o ":files left behind:" \o Name(c)]>> ELSE <<>>)
  /\ i' = i + 1 /\ UNCHANGED vars
Done ==
  /\ i = Len(Cases) + 1
  /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Cases)])
  /\ i' = i + 1 /\ UNCHANGED <<bad, vars>>
TFirst == nfull = 0 /\ part = FALSE /\ a = 1 /\ b = 0 /\ lim = 0 /\ last = 0 /\ at = 0 /\ kept = <<>> /\ pc = "scan"
TSpec == TFirst /\ i = 1 /\ bad = <<>> /\ [][Step \/ Done]_<<tvars, vars>>
=============================================================================
