------------------------------- MODULE Thermo -------------------------------
(***************************************************************************)
(* Thermal properties of phonons with a given density of states.           *)
(* The frequencies are multiples k of f0 and the temperature T0 / 2^t,     *)
(* with h f0 = k_B T0 ln 2: exp(h f / k_B T) = 2^m, m = k 2^t, so that     *)
(* occupations are rational numbers.  Energies in units of k_B T0,         *)
(* entropies and heat capacities in k_B; fixed point with unit 10^-6.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K,             \* frequencies 0..K
          MaxOps, Gs     \* values of the density
Unit == 1000000
Ln2 == 693147
Ln2Sq == 480453
VARIABLES g, gh, t, from, hist      \* density, another density (harmonic), level, first frequency of the grid
vars == <<g, gh, t, from, hist>>
Sum(n, f(_)) == LET s[i \in 0..n] == IF i = 0 THEN f(0) ELSE s[i - 1] + f(i) IN s[n]
M(k) == k * 2 ^ t
Big(k) == M(k) > 20
\* ln(1 - 2^-m) by its series
LnOne(m) == IF m > 20 THEN 0 ELSE LET s[j \in 0..24] == IF j = 0 THEN 0 ELSE s[j - 1] + (IF m * j > 24 THEN 0 ELSE ((Unit * 16) \div (2 ^ (m * j))) \div j) IN -((s[24] + 8) \div 16)
\* one oscillator of frequency k (k > 0; what is at zero frequency does not count)
Energy(k) == IF k = 0 THEN 0 ELSE (k * Ln2) \div 2 + (IF Big(k) THEN 0 ELSE (k * Ln2) \div (2 ^ M(k) - 1))
Free(k) == IF k = 0 THEN 0 ELSE (k * Ln2) \div 2 + LnOne(M(k)) \div 2 ^ t
Entropy(k) == IF k = 0 THEN 0 ELSE (Energy(k) - Free(k)) * 2 ^ t
Heat(k) == IF k = 0 \/ Big(k) THEN 0 ELSE LET x == (M(k) * M(k) * Ln2Sq) \div (2 ^ M(k) - 1) IN x + x \div (2 ^ M(k) - 1)
\* integral of a density of property times density by Simpson's rule, in units of f0 / 3
Weight(k, a) == IF k = a \/ k = K THEN 1 ELSE IF (k - a) % 2 = 1 THEN 4 ELSE 2
Integral(d, f(_)) == Sum(K, LAMBDA k : IF k < from THEN 0 ELSE Weight(k, from) * d[k] * f(k))
U == Integral(g, Energy)
F == Integral(g, Free)
S == Integral(g, Entropy)
C == Integral(g, Heat)
\* what replaces half of the energy of the phonons by that with the harmonic density
Correction == (Integral(gh, Energy) - Integral(g, Energy)) \div 2

\* ------------------------------------------------------------------ properties
Abs(x) == IF x < 0 THEN -x ELSE x
Legendre == Abs(F - (U - S \div 2 ^ t)) <= 12 * (K + 1) * 4
Positive == S >= -100 /\ C >= 0 /\ 2 * U >= Integral(g, LAMBDA k : k * Ln2) - 1000
Dulong == \A k \in 1..K : Heat(k) <= Unit /\ Energy(k) <= (Unit \div 2 ^ t) + k * (Ln2 \div 2) + 5
\* colder: less of everything
ThirdLaw == \A k \in 1..K : M(k) >= 16 => Entropy(k) <= 400 /\ Heat(k) <= 2500
Spread == \A k \in 1..K - 1 : Entropy(k + 1) <= Entropy(k) + 8 * 2 ^ t /\ Heat(k + 1) <= Heat(k) + 5 /\ Free(k + 1) >= Free(k)

Note(op, v) == hist' = Append(hist, [op |-> op, v |-> v])
Zero == [k \in 0..K |-> 0]
Init == g = [k \in 0..K |-> IF k \in {2, 5} THEN 1 ELSE 0] /\ gh = Zero /\ t = 0 /\ from = 0 /\ hist = <<>>
Put == \E k \in 0..K, x \in Gs : g[k] # x /\ g' = [g EXCEPT ![k] = x] /\ UNCHANGED <<gh, t, from>> /\ Note("put", <<k, x>>)
Keep == gh' = g /\ UNCHANGED <<g, t, from>> /\ gh # g /\ Note("keep", <<>>)
Cool == t < 2 /\ t' = t + 1 /\ UNCHANGED <<g, gh, from>> /\ Note("level", <<t + 1>>)
Warm == t > 0 /\ t' = t - 1 /\ UNCHANGED <<g, gh, from>> /\ Note("level", <<t - 1>>)
From == \E a \in {0, 2, 4} : a # from /\ from' = a /\ UNCHANGED <<g, gh, t>> /\ Note("from", <<a>>)
Ask == UNCHANGED <<g, gh, t, from>> /\ Note("ask", <<>>)
Next == Len(hist) < MaxOps /\ (Put \/ Keep \/ Cool \/ Warm \/ From \/ Ask)
Spec == Init /\ [][Next]_vars
view == <<g, gh, t, from, Len(hist)>>
=============================================================================
