------------------------------ MODULE SpreadMC ------------------------------
EXTENDS Spread
CONSTANTS Values, MaxLen, Bins
VARIABLES s, b
Init == s = <<>> /\ b \in Bins
Next == Len(s) < MaxLen /\ \E v \in Values : s' = Append(s, v) /\ UNCHANGED b
Spec == Init /\ [][Next]_<<s, b>>
Lo == CHOOSE x \in Values : \A i \in DOMAIN s : x <= s[i] /\ \E k \in DOMAIN s : s[k] = x
Hi == CHOOSE x \in Values : \A i \in DOMAIN s : x >= s[i] /\ \E k \in DOMAIN s : s[k] = x
C(n, d) == [k \in 1..n |-> Count(d, k, Lo, Hi, n)]
Proper == s # <<>> /\ Lo # Hi
\* half open bins are a distribution; so is what is counted downwards (bins open below)
Right == Proper => IsCount(C(b, s), s, Lo, Hi, b)
Mirror == Proper => LET r == [i \in DOMAIN s |-> Lo + Hi - s[i]] IN IsCount([k \in 1..b |-> Count(r, b + 1 - k, Lo, Hi, b)], s, Lo, Hi, b)
\* each pair of half as wide bins is one
Merge == Proper => \A k \in 1..b : C(b, s)[k] = C(2 * b, s)[2 * k - 1] + C(2 * b, s)[2 * k]
Ends == Proper => C(b, s)[1] > 0 /\ C(b, s)[b] > 0
\* short of values on edges there is one distribution only
Only1 == Proper /\ (\A k \in 1..b - 1 : Below(s, k, Lo, Hi, b) = Upto(s, k, Lo, Hi, b)) =>
         \A k \in 1..b : \A m \in 1..b : m # k /\ C(b, s)[m] > 0 => ~IsCount([C(b, s) EXCEPT ![m] = @ - 1, ![k] = @ + 1], s, Lo, Hi, b)
=============================================================================
