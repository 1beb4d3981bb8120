------------------------------- MODULE Spread -------------------------------
(***************************************************************************)
(* Distribution of values (displacements along a direction) of several     *)
(* sets (types of atoms) in equal bins between the least and the greatest  *)
(* of all the values: counts, integers.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bin(p, lo, hi, b) == IF p = hi THEN b ELSE ((p - lo) * b) \div (hi - lo) + 1
\* values on the edge of two bins may be counted in either (edges are not exact numbers in a computer)
Below(s, k, lo, hi, b) == Cardinality({i \in DOMAIN s : (s[i] - lo) * b < k * (hi - lo)})
Upto(s, k, lo, hi, b) == Cardinality({i \in DOMAIN s : (s[i] - lo) * b <= k * (hi - lo)})
Count(s, k, lo, hi, b) == Cardinality({i \in DOMAIN s : Bin(s[i], lo, hi, b) = k})
RECURSIVE Before(_, _)
Before(c, k) == IF k = 0 THEN 0 ELSE c[k] + Before(c, k - 1)
IsCount(c, s, lo, hi, b) == /\ Len(c) = b /\ Before(c, b) = Len(s)
                            /\ \A k \in 1..b - 1 : LET x == Before(c, k) IN Below(s, k, lo, hi, b) <= x /\ x <= Upto(s, k, lo, hi, b)
=============================================================================
