------------------------------ MODULE StarsGen ------------------------------
(* cases: crystal, supercell of the trajectory, of the force constants, symmetry, symmetrization, algorithm, fitting function, where from *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Big
Cells == [tetra |-> {<<2, 2, 1>>, <<3, 3, 1>>, <<2, 2, 2>>} \cup (IF Big THEN {<<4, 4, 1>>, <<3, 3, 2>>} ELSE {<<4, 4, 1>>}),
          ortho |-> {<<2, 1, 1>>, <<3, 2, 1>>, <<4, 1, 2>>}, tric |-> {<<2, 1, 1>>, <<2, 1, 2>>, <<4, 1, 1>>},
          conv |-> {<<1, 2, 1>>, <<2, 2, 1>>}, bcc |-> {<<2, 2, 2>>}, mono |-> {<<2, 2, 1>>, <<3, 2, 1>>, <<6, 1, 1>>},
          hex |-> {<<2, 2, 1>>, <<3, 3, 1>>} \cup (IF Big THEN {<<4, 4, 1>>} ELSE {})]
VARIABLES c, todo
Gen == /\ \E x \in DOMAIN Cells : \E m \in Cells[x] : \E s \in BOOLEAN, fs \in BOOLEAN, md \in BOOLEAN, f \in {0, 2}, z \in 0..(IF Big THEN 2 ELSE 0) :
            /\ (fs => s) /\ (~Big => (f = 2) = (m[1] = 2 /\ ~md))
            /\ (~Big => ~(fs /\ md))
            /\ c = [crystal |-> x, md |-> m, sym |-> s, fcsym |-> fs, mdcell |-> md, fn |-> f, seed |-> z]
       /\ todo = TRUE
GenNext == todo /\ todo' = FALSE /\ PrintT("BEH " \o ToJson(c)) /\ UNCHANGED c
GenSpec == Gen /\ [][GenNext]_<<c, todo>>
=============================================================================
