------------------------------- MODULE ToolsGen -------------------------------
(* requests to the tools: order (0 kept, 1 reversed, k rotated or shuffled), form and content of their files *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Big
Crystals == {"tetra", "ortho", "tric", "conv", "convmix", "bcc", "mono", "hex", "chain", "couple"}
VARIABLES c, todo
Init == todo = "tool" /\ c = [tool |-> "none"]
Tool == /\ todo = "tool" /\ \E k \in {"rfc", "rfc", "cp", "qha", "fit"} : c' = [tool |-> k] /\ todo' = k
Rfc == /\ todo = "rfc" /\ todo' = "rfc2"
       /\ \E x \in Crystals, m \in {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 3>>, <<3, 1, 1>>, <<2, 2, 1>>, <<3, 2, 1>>} : c' = [x |-> x, dim |-> m] @@ c
Rfc2 == /\ todo = "rfc2" /\ todo' = "show"
        /\ \E o \in 0..3, form \in {"list", "map"}, z \in 0..2, s \in 1..4, sym \in BOOLEAN, plot \in 0..2, imag \in BOOLEAN :
             /\ c.x \in {"couple", "chain"} => ~sym          \* their force constants have less symmetry than their atoms
             /\ c' = [order |-> o, form |-> form, zone |-> z, seed |-> s, sym |-> sym, plot |-> plot, imag |-> imag] @@ c
Cp == /\ todo = "cp" /\ todo' = "show"
      /\ \E x \in Crystals, m \in {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 1, 2>>, <<1, 4, 1>>, <<1, 1, 3>>, <<3, 1, 1>>, <<2, 2, 2>>, <<3, 2, 1>>} : c' = [x |-> x, dim |-> m] @@ c
Qha == /\ todo = "qha" /\ todo' = "show"
       /\ \E x \in {"tetra", "ortho", "tric", "mono", "hex", "couple"}, o \in 0..3, t \in {0, 40, 90, 150, 200, 277}, g \in {-15, -30, 12}, h \in {0, 7, -9}, n \in {6, 9}, e \in {20, 60}, glob \in BOOLEAN :
            c' = [x |-> x, order |-> o, T |-> t, a1 |-> g, a2 |-> h, n |-> n, stiff |-> e, glob |-> glob] @@ c
Fit == /\ todo = "fit" /\ todo' = "show"
       /\ \E cols \in 1..4, rows \in {60, 101}, sets \in {"all", "each", "pairs", "last"}, sm \in {0, 0, 5, 30}, fn \in {0, 1, 2}, s \in 1..4 :
            c' = [cols |-> cols, rows |-> rows, sets |-> sets, smooth |-> sm, fn |-> fn, seed |-> s] @@ c
Show == todo = "show" /\ todo' = "done" /\ PrintT("BEH " \o ToJson(c)) /\ UNCHANGED c
Spec == Init /\ [][Tool \/ Rfc \/ Rfc2 \/ Cp \/ Qha \/ Fit \/ Show]_<<c, todo>>
=============================================================================
