------------------------------- MODULE BandsMC -------------------------------
(***************************************************************************)
(* A crystal of three characters.  Levels of a wave vector: an order of    *)
(* the characters; two neighbouring levels of the harmonic force constants *)
(* may be degenerate (their eigenvectors: any mix of the two characters),  *)
(* and so may two of the renormalized.  Walk along two paths, with each    *)
(* branch following its eigenvector and paired with a renormalized level.  *)
(* Squares of overlaps in units of 1/4.                                    *)
(***************************************************************************)
EXTENDS Bands
CONSTANTS Steps, Line            \* Line: pair line by line (as the program did)
B == 1..3
PB == Perms(3)
\* state of a wave vector: h, r: characters of levels; mh, mr: 0 or the first of two degenerate levels; xh, xr: how they are mixed (of 4)
Points3 == [h : PB, r : PB, mh : 0..2, mr : 0..2, xh : {0, 1, 2}, xr : {0, 2}]
\* share of character c in level l
Share(o, m, x, l, c) == IF m = 0 \/ l \notin {m, m + 1} THEN (IF o[l] = c THEN 4 ELSE 0)
                        ELSE IF o[l] = c THEN 4 - x ELSE IF c \in {o[m], o[m + 1]} THEN x ELSE 0
Over(o, m, x, p, n, y) == [a \in B |-> [b \in B |-> SumOver([c \in B |-> Share(o, m, x, a, c) * Share(p, n, y, b, c)], B)]]
HH(u, w) == Over(u.h, u.mh, u.xh, w.h, w.mh, w.xh)
HR(u) == Over(u.h, u.mh, u.xh, u.r, u.mr, u.xr)
Matches(M) == IF Line THEN Largest(M) ELSE Pairings(M, PB)
Few(w) == (w.mh = 0 => w.xh = 0) /\ (w.mr = 0 => w.xr = 0)
World == {w \in Points3 : Few(w)}
Walked == {w \in World : w.mr = 0 /\ w.r = <<1, 2, 3>>}        \* (the renormalized levels of the points after the first)
First == {w \in World : w.h = <<1, 2, 3>>}                    \* (names of characters)
VARIABLES at, n, ord, pair
vars == <<at, n, ord, pair>>
Start == /\ n = 1 /\ ord = [b \in B |-> b] /\ at \in First /\ pair \in Matches(HR(at))
Next == /\ n < Steps /\ n' = n + 1 /\ (at.mr = 0 /\ at.r = <<1, 2, 3>>)
        /\ at' \in Walked
        /\ \E f \in Matches(HH(at, at')) :
                  /\ ord' = [b \in B |-> f[ord[b]]]
                  /\ \E g \in Matches(HR(at')) : pair' = [b \in B |-> g[ord'[b]]]
Spec == Start /\ [][Next]_vars
\* ------------------------------------------------ what follows
Once == ord \in PB /\ pair \in PB
\* frequencies of levels: degenerate levels have the same
Freq(m, l) == IF m # 0 /\ l = m + 1 THEN m ELSE l
Kept(a) == \* the eigenvector of branch a lies within the levels of one renormalized frequency
  {l \in B : SumOver([m \in B |-> HR(at)[ord[a]][m]], {m \in B : Freq(at.mr, m) = Freq(at.mr, l)}) = 16}
Paired == \A a \in B : Kept(a) # {} => Freq(at.mr, pair[a]) \in {Freq(at.mr, l) : l \in Kept(a)}
\* the sum of the shifts does not depend on the branches
Trace == SumOver([a \in B |-> Freq(at.mr, pair[a]) - Freq(at.mh, ord[a])], B) = SumOver([l \in B |-> Freq(at.mr, l) - Freq(at.mh, l)], B)
\* where nothing is degenerate, the branch goes on with its character
Same == [][(at.mh = 0 /\ at'.mh = 0) => \A b \in B : at'.h[ord'[b]] = at.h[ord[b]]]_vars
=============================================================================
