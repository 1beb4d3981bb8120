------------------------------ MODULE Spectra ------------------------------
(***************************************************************************)
(* Power spectra of complex signals at frequencies that are quarters of    *)
(* the sampling frequency: phases are powers of i and, for signals of      *)
(* Gaussian integers, the spectra of the direct method are integers and    *)
(* those of the FFT sums of roots of integers.  Maximum entropy (Burg) in  *)
(* fixed point.  Signals are sequences v[1..N] of Gaussian integers.       *)
(* Frequencies are given as k: f = k / (4 dt).                             *)
(***************************************************************************)
EXTENDS Gauss, FiniteSets, SequencesExt
Minimum(a, b) == IF a < b THEN a ELSE b
Maximum(a, b) == IF a > b THEN a ELSE b

Plus(a, b) == a + b
\* ------------------------------------------------------------ direct method
\* sum over j < m of conj(v_j) v_(j+lag)
RECURSIVE LagSum(_, _, _)
LagSum(v, lag, m) == IF m <= 0 THEN CZero
                     ELSE CAdd(LagSum(v, lag, m - 1), CMul(CConj(v[m]), v[m + lag]))
\* lags 0, inc, 2 inc, ... as indices 0, 1, 2 ...
Lags(N, inc) == 0..((N - 1) \div inc)
\* times dt inc / N
Direct(v, inc, trapezoid, k) ==
  LET N == Len(v)
      Term(l) == LET m == N - l * inc - inc
                     a == CMul(LagSum(v, l * inc, m), IPow(k * l * inc))[1]
                 IN IF m <= 0 THEN 0
                    ELSE IF trapezoid THEN a + CMul(LagSum(v, l * inc + inc, m), IPow(k * (l * inc + inc)))[1]
                    ELSE 2 * a
  IN FoldLeft(Plus, 0, [l \in 1..((N - 1) \div inc + 1) |-> Term(l - 1)])

\* ---------------------------------------------------------------------- FFT
\* pieces the data are divided in, for P steps asked
PieceSize(N, P) == IF (N - 1) \div P = 0 THEN N ELSE P
Pieces(N, P) == LET n == (N - 1) \div P IN IF n = 0 THEN 1 ELSE n
\* starts (index of the data before) of the pieces: evenly spaced, from the first data to the last
Starts(N, P) == [x \in 1..(Pieces(N, P) + 1) |-> ((x - 1) * (N - PieceSize(N, P))) \div Pieces(N, P)]
\* |Fourier transform|^2 at k of the central P lags of the correlation of w (times P^2)
FftSquare(w, k) ==
  LET P == Len(w)
      \* lags of the central part: Low..Low+P-1
      Low == (P - 1) \div 2 - (P - 1)
      C(l) == IF l >= 0 THEN LagSum(w, l, P - l) ELSE CConj(LagSum(w, -l, P + l))
  IN CNorm(CSum([x \in 1..P |-> CMul(C(Low + x - 1), IPow(-k * (Low + x - 1)))]))
Cut(v, start, P) == [x \in 1..P |-> v[start + x]]
RECURSIVE RootFrom(_, _, _)
RootFrom(n, lo, hi) == IF lo >= hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootFrom(n, m, hi) ELSE RootFrom(n, lo, m - 1)
Root(n) == RootFrom(n, 0, 46340)
\* bounds of 100 x (number of pieces + 1) x P x spectrum / dt
RootLow(n) == IF n < 200000 THEN Root(10000 * n) ELSE 100 * Root(n)
RootHigh(n) == RootLow(n) + IF n < 200000 THEN 1 ELSE 100
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sum2(f) == FoldLeft(Add2, <<0, 0>>, f)
FftBounds(v, P, k) ==
  LET s == Starts(Len(v), P)  z == PieceSize(Len(v), P)
  IN Sum2([x \in 1..Len(s) |-> LET n == FftSquare(Cut(v, s[x], z), k) IN <<RootLow(n), RootHigh(n)>>])

\* --------------------------------------------------- maximum entropy (Burg)
A1 == 10000                    \* scale of the coefficients
W1 == 1000                     \* scale of the prediction errors
Sq(x) == x * x
Abs1(x) == IF x < 0 THEN -x ELSE x
DivRound(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
Isum(f, n) == FoldLeft(Plus, 0, f)
\* num / den, scaled by 10000 (den up to 2^30)
RECURSIVE Ratio(_, _)
Ratio(num, den) ==
  IF den > 2000000 THEN Ratio(DivRound(num, 64), DivRound(den, 64))
  ELSE LET a == Abs1(num)  q == a \div den  r == a % den
           d1 == (r * 100) \div den  r1 == (r * 100) % den
           d2 == DivRound(r1 * 100, den)
           v == q * 10000 + d1 * 100 + d2
       IN IF num < 0 THEN -v ELSE v
Fix(a, x) == DivRound(a * x, A1)       \* a scaled, x anything

\* state of the recursion: coefficients a, forward and backward errors f, b, product of 1 - a_k^2 (scaled), power
\* power: sum of squares (over N); dead: the prediction is exact, the spectrum undefined (the code leaves 0)
BurgInit(x) == [a |-> <<>>, f |-> [j \in 1..(Len(x) - 1) |-> W1 * x[j]], b |-> [j \in 1..(Len(x) - 1) |-> W1 * x[j + 1]],
                m |-> A1, dead |-> FALSE, vague |-> FALSE]
BurgStep(s) ==
  IF s.dead THEN s ELSE
  LET n == Len(s.f)
      num == Isum([j \in 1..n |-> DivRound(s.f[j], 10) * DivRound(s.b[j], 10)], n)
      den == Isum([j \in 1..n |-> Sq(DivRound(s.f[j], 10)) + Sq(DivRound(s.b[j], 10))], n)
  IN IF den = 0 THEN [s EXCEPT !.dead = TRUE]
     ELSE LET c == Ratio(2 * num, den)  k == Len(s.a) + 1 IN
          [a |-> [x \in 1..k |-> IF x = k THEN c ELSE s.a[x] - Fix(c, s.a[k - x])],
           f |-> [j \in 1..(n - 1) |-> s.f[j] - Fix(c, s.b[j])],
           b |-> [j \in 1..(n - 1) |-> s.b[j + 1] - Fix(c, s.f[j + 1])],
           m |-> Fix(A1 - Fix(c, c), s.m), dead |-> FALSE, vague |-> s.vague \/ den < 100 * n]
RECURSIVE Burg(_, _)
Burg(x, order) == IF order = 0 THEN BurgInit(x) ELSE BurgStep(Burg(x, order - 1))
\* |1 - sum a_j z^j|^2 scaled by 10000, z = i^k
Filter(a, k) == LET s == CSum(<< <<A1, 0>> >> \o [j \in 1..Len(a) |-> CScale(-a[j], IPow(k * j))])
                IN DivRound(Sq(DivRound(s[1], 10)) + Sq(DivRound(s[2], 10)), 100)
\* small numbers in which the fixed point loses its figures
BurgVague(x, order, ks) == LET s == Burg(x, order) IN s.vague \/ (~s.dead /\ (s.m < 100 \/ \E k \in ks : Filter(s.a, k) < 1000))
BurgDead(x, order) == Burg(x, order).dead
Power(x) == Isum([j \in 1..Len(x) |-> Sq(x[j])], Len(x))
\* N x spectrum / dt, scaled by 10
BurgSpectrum(x, order, k) ==
  LET s == Burg(x, order)
      r == Ratio(s.m, Filter(s.a, k))
      p == 10 * Power(x)
  IN IF s.dead THEN 0 ELSE (r \div A1) * p + Fix(r % A1, p)
=============================================================================
