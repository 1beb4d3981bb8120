-------------------------------- MODULE Peaks --------------------------------
(***************************************************************************)
(* Analysis of the peaks of the phonons at a wave vector: modes whose      *)
(* harmonic frequencies are joined by steps smaller than the cutoff form a *)
(* degenerate set and share the mean of their spectra; every spectrum is   *)
(* fitted; the thermal expansion shift of the mode is added to the place.  *)
(* Frequencies in units of 10^-5 THz, places and widths in 10^-2 THz.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxModes, MaxOps,
          Gaps,        \* steps between harmonic frequencies
          PeakIds, AreaIds
Cutoff == 10
AreaOf == <<1, 3, 8>>
Shapes == [p \in 1..4 |-> <<[a |-> 300, b |-> 10], [a |-> 520, b |-> 25], [a |-> 90, b |-> 6], [a |-> 742, b |-> 40]>>[p]]
Shift(k) == 37 * k - 60
VARIABLES modes, sym, fn, shifted, grid, base, hist
vars == <<modes, sym, fn, shifted, grid, base, hist>>
RECURSIVE SumTo(_, _, _)
SumTo(s, f(_), n) == IF n = 0 THEN 0 ELSE f(s[n]) + SumTo(s, f, n - 1)
Freq(k) == 100000 + SumTo(modes, LAMBDA m : m.gap, k)
\* modes i and k are in one set: no large step between them
Joined(i, k) == \A j \in 1..Len(modes) : (j > i /\ j <= k) \/ (j > k /\ j <= i) => modes[j].gap < Cutoff
Set(i) == IF sym THEN {k \in 1..Len(modes) : Joined(i, k)} ELSE {i}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN modes[k].area + Total(S \ {k})
Found(i) == Total(Set(i)) > 0
\* what is answered for mode i: place and width in 10^-2 THz, area as a fraction
Answer(i) == LET s == Shapes[modes[i].peak] IN
  IF Found(i) THEN [place |-> s.a + (IF shifted THEN Shift(i) ELSE 0), width |-> 2 * s.b, num |-> Total(Set(i)), den |-> Cardinality(Set(i))]
  ELSE [place |-> 0, width |-> 0, num |-> 0, den |-> 1]

\* ------------------------------------------------ the sets as the program makes them (one pass)
RECURSIVE Pass(_, _, _)
Pass(set, done, j) ==
  IF j > Len(modes) THEN set
  ELSE IF j \notin done /\ \E k \in set : Freq(j) - Freq(k) < Cutoff /\ Freq(k) - Freq(j) < Cutoff
       THEN Pass(set \cup {j}, done, j + 1) ELSE Pass(set, done, j + 1)
RECURSIVE Made(_, _)
Made(i, done) == IF i > Len(modes) THEN {}
                 ELSE IF i \in done THEN Made(i + 1, done)
                 ELSE LET s == Pass({i}, done, i + 1) IN {s} \cup Made(i + 1, done \cup s)
SetsRight == sym => Made(1, {}) = {Set(i) : i \in 1..Len(modes)}
Partition == \A i, k \in 1..Len(modes) : i \in Set(i) /\ (k \in Set(i)) = (Set(i) = Set(k))
Shared == \A i \in 1..Len(modes) : \A k \in Set(i) : LET x == Answer(i)  y == Answer(k) IN x.num = y.num /\ x.width = y.width

Note(op, v) == hist' = Append(hist, [op |-> op, v |-> v])
Init == modes = <<>> /\ sym = TRUE /\ fn = 0 /\ shifted = FALSE /\ grid = 1 /\ base = FALSE /\ hist = <<>>
\* modes of one set have their peak at one place
Add == \E g \in Gaps, p \in PeakIds, a \in AreaIds :
  /\ Len(modes) < MaxModes
  /\ (modes # <<>> /\ g < Cutoff => p = modes[Len(modes)].peak)
  /\ modes' = Append(modes, [gap |-> g, peak |-> p, area |-> AreaOf[a]]) /\ UNCHANGED <<sym, fn, shifted, grid, base>> /\ Note("add", <<g, p, AreaOf[a]>>)
Drop == Len(modes) > 1 /\ modes' = SubSeq(modes, 1, Len(modes) - 1) /\ UNCHANGED <<sym, fn, shifted, grid, base>> /\ Note("drop", <<>>)
Ask == Len(modes) > 0 /\ UNCHANGED <<modes, sym, fn, shifted, grid, base>> /\ Note("ask", <<>>)
Switch == \/ sym' = ~sym /\ UNCHANGED <<modes, fn, shifted, grid, base>> /\ Note("sym", <<>>)
          \/ shifted' = ~shifted /\ UNCHANGED <<modes, sym, fn, grid, base>> /\ Note("shift", <<>>)
          \/ \E f \in 0..2 : f # fn /\ fn' = f /\ UNCHANGED <<modes, sym, shifted, grid, base>> /\ Note("fn", <<f>>)
          \/ \E g \in 1..3 : g # grid /\ grid' = g /\ UNCHANGED <<modes, sym, fn, shifted, base>> /\ Note("grid", <<g>>)
          \/ base' = ~base /\ UNCHANGED <<modes, sym, fn, shifted, grid>> /\ Note("base", <<>>)
Next == Len(hist) < MaxOps /\ (Add \/ Drop \/ Ask \/ Switch)
Spec == Init /\ [][Next]_vars
view == <<modes, sym, Len(hist)>>
\* a new mode in another set changes nothing for those already there
Apart == [][Len(modes') = Len(modes) + 1 /\ modes'[Len(modes')].gap >= Cutoff => \A i \in 1..Len(modes) : Answer(i)' = Answer(i)]_vars
=============================================================================
