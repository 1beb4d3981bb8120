------------------------------- MODULE StarsMC -------------------------------
(* the loop over the commensurate wave vectors, in any order (the first is zero) *)
EXTENDS Stars
CONSTANTS Order,          \* "any" or "list"
          Sizes
Few == {<<2, 2, 1>>, <<2, 2, 2>>, <<3, 3, 1>>, <<3, 2, 2>>, <<4, 4, 1>>, <<4, 2, 1>>}
Tiny == {<<2, 2, 1>>, <<3, 2, 1>>, <<4, 1, 1>>}
Many3 == Few \cup {<<3, 3, 3>>, <<4, 4, 2>>, <<6, 2, 1>>, <<3, 4, 2>>}
\* tables
All == [x \in DOMAIN Xtal |-> UNION {Points(x, z) : z \in Sizes}]
StarOf == [x \in DOMAIN Xtal |-> [q \in All[x] |-> Star(x, q)]]
FoundOf == [x \in DOMAIN Xtal |-> [q \in All[x] |-> Found(x, q)]]
VARIABLES n, sc, left, root
vars == <<n, sc, left, root>>
Key(q) == q[1] + 100 * q[2] + 10000 * q[3]
First(S) == CHOOSE q \in S : \A r \in S : Key(q) <= Key(r)
Init == /\ n \in DOMAIN Xtal /\ sc \in Sizes
        /\ left = Points(n, sc) \ {<<0, 0, 0>>}
        /\ root = [q \in {<<0, 0, 0>>} |-> q]
Take(q) == LET from == FoundOf[n][q] \cap DOMAIN root
           IN /\ left' = left \ {q} /\ UNCHANGED <<n, sc>>
              /\ IF from = {} THEN root' = [x \in DOMAIN root \cup {q} |-> IF x = q THEN q ELSE root[x]]
                 ELSE \E s \in from : root' = [x \in DOMAIN root \cup {q} |-> IF x = q THEN root[s] ELSE root[x]]
Next == left # {} /\ (IF Order = "any" THEN \E q \in left : Take(q) ELSE Take(First(left)))
Spec == Init /\ [][Next]_vars
\* groups, stars
ASSUME \A x \in DOMAIN Xtal : \A R \in Group[x] : \A S \in Group[x] : [k \in 1..3 |-> Row(R[k], S)] \in Group[x]
ASSUME \A x \in DOMAIN Xtal : Cardinality(Group[x]) = CASE x = "tetra" -> 16 [] x = "tric" -> 1 [] x = "bcc" -> 48 [] x = "hex" -> 12 [] OTHER -> 8
\* stars are disjoint, of as many wave vectors as divide the operations; the commensurate ones are those that are
ASSUME \A x \in DOMAIN Xtal : \A q \in All[x] : (Cardinality(Group[x]) * 2) % Cardinality(StarOf[x][q]) = 0 /\ \A r \in StarOf[x][q] \cap All[x] : StarOf[x][r] = StarOf[x][q]
ASSUME \A x \in DOMAIN Xtal : \A z \in Sizes : Cardinality(Points(x, z)) = z[1] * z[2] * z[3] * (IF x \in {"conv", "bcc"} THEN 2 ELSE 1) /\ \A q \in Points(x, z) : Commensurate(x, z, q)
\* data come from the star
InStar == left = {} => \A q \in DOMAIN root : root[q] \in StarOf[n][q]
\* no more analyses than wave vectors, no fewer than stars (images with negative components are not found: see Whole)
Once == left = {} => Cardinality({StarOf[n][q] : q \in DOMAIN root}) <= Cardinality({root[q] : q \in DOMAIN root})
\* what is not the case: q and -q may have the data of different members of their star
Whole == left = {} => \A q \in DOMAIN root : root[Opp(q)] \in {root[q], Opp(root[q])}
=============================================================================
