----------------------------- MODULE SpectraMC -----------------------------
(* the direct method step by step as the code does it, and what users rely on *)
EXTENDS Spectra, TLC
CONSTANTS N, Incs
Vals == {<<0, 0>>, <<1, 0>>, <<-1, 1>>, <<0, 2>>}

VARIABLES v, inc, trap, k, i, j, acc
vars == <<v, inc, trap, k, i, j, acc>>
Init == /\ v \in [1..N -> Vals] /\ inc \in Incs /\ trap \in BOOLEAN /\ k \in 0..3
        /\ i = 0 /\ j = 0 /\ acc = CZero
\* the two nested loops of the code
Inner == /\ i < N /\ j < N - i - inc
         /\ LET a == CMul(CMul(CConj(v[j + 1]), v[j + i + 1]), IPow(k * i))
                b == CMul(CMul(CConj(v[j + 1]), v[j + i + inc + 1]), IPow(k * (i + inc)))
            IN acc' = IF trap THEN CAdd(acc, CAdd(a, b)) ELSE CAdd(acc, CScale(2, a))
         /\ j' = j + 1 /\ UNCHANGED <<v, inc, trap, k, i>>
Outer == /\ i < N /\ ~(j < N - i - inc) /\ i' = i + inc /\ j' = 0 /\ UNCHANGED <<v, inc, trap, k, acc>>
Spec == Init /\ [][Inner \/ Outer]_vars
Done == i >= N
Is == Done => acc[1] = Direct(v, inc, trap, k)

Neg(w) == [x \in 1..N |-> CScale(-1, w[x])]
Turn(w) == [x \in 1..N |-> CMul(<<0, 1>>, w[x])]
Twice(w) == [x \in 1..N |-> CScale(2, w[x])]
Conj(w) == [x \in 1..N |-> CConj(w[x])]
\* the phase of a signal does not matter, its power does, quadratically
Phase == Done => Direct(Neg(v), inc, trap, k) = acc[1] /\ Direct(Turn(v), inc, trap, k) = acc[1]
Quadratic == Done => Direct(Twice(v), inc, trap, k) = 4 * acc[1]
\* conjugate signals have the spectrum at the opposite frequency; a period of the sampling changes nothing
Mirror == Done => Direct(Conj(v), inc, trap, k) = Direct(v, inc, trap, -k)
Alias == Done => Direct(v, inc, trap, k + 4) = acc[1]
\* a constant signal has its power at frequency 0: N (N - 1) with steps of one by rectangles (no data past the end)
Const == (Done /\ k = 0 /\ inc = 1 /\ (\A x \in 1..N : v[x] = <<1, 0>>) /\ ~trap) => acc[1] = N * (N - 1)
\* FFT
At0 == Done /\ i - inc < N - inc /\ inc = 1 /\ trap     \* (once per signal)
FftPhase == At0 => \A P \in 1..N : FftSquare(Turn(Cut(v, 0, N)), k) = FftSquare(v, k)
FftQuadratic == At0 => FftSquare(Twice(v), k) = 16 * FftSquare(v, k)
FftMirror == At0 => FftSquare(Conj(v), k) = FftSquare(v, -k)
\* all frequencies of a piece of four together: no power lost (Parseval for the central lags)
Four == N >= 4 => (At0 /\ k = 0 =>
   LET w == Cut(v, 0, 4)  s == FftSquare(w, 0) + FftSquare(w, 1) + FftSquare(w, 2) + FftSquare(w, 3)
       C(l) == IF l >= 0 THEN LagSum(w, l, 4 - l) ELSE CConj(LagSum(w, -l, 4 + l))
   IN s = 4 * (CNorm(C(-2)) + CNorm(C(-1)) + CNorm(C(0)) + CNorm(C(1))))
\* Burg: the coefficients of the last order are at most one, the error never grows, the spectrum is positive
Re(w) == [x \in 1..N |-> w[x][1]]
Coefficients == At0 => \A o \in 1..(N - 2) : LET s == Burg(Re(v), o) IN
    ~s.dead => Abs1(s.a[o]) <= A1 + 20 /\ s.m <= A1 /\ s.m >= -100 /\ s.m <= Burg(Re(v), o - 1).m
BurgSign == At0 => \A o \in 1..(N - 2) : Burg(Re(Neg(v)), o).a = Burg(Re(v), o).a
\* one coefficient, exactly: a = 2 sum x_j x_j+1 / (sum of both squares)
BurgOne == At0 => LET x == Re(v)  num == 2 * Isum([y \in 1..(N - 1) |-> x[y] * x[y + 1]], N - 1)
                      den == Isum([y \in 1..(N - 1) |-> Sq(x[y]) + Sq(x[y + 1])], N - 1)
                  IN den > 0 => Abs1(Burg(x, 1).a[1] * den - A1 * num) <= den
\* the division of the data: first to last, same size, nothing left out, one more piece than fits
DivisionOf(n, P) ==
  LET s == Starts(n, P)  z == PieceSize(n, P) IN
  /\ s[1] = 0 /\ s[Len(s)] + z = n
  /\ \A x \in 1..(Len(s) - 1) : s[x] <= s[x + 1] /\ s[x + 1] <= s[x] + z
  /\ n >= 2 /\ P < n => z = P
Division == (Done /\ i = inc * ((N + inc - 1) \div inc) /\ v = [x \in 1..N |-> <<0, 0>>] /\ inc = 1 /\ trap /\ k = 0) =>
   \A n \in 1..60, P \in 1..40 : DivisionOf(n, P)
=============================================================================
