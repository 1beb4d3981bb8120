------------------------------ MODULE BandsGen ------------------------------
(* cases: crystal, paths of wave vectors (over 24), marks, points, options, how the frequencies and widths of the trajectory differ *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Big
Crystals == {"tetra", "ortho", "tric", "conv", "bcc", "mono", "hex", "chain", "couple"}
Nodes == {<<0, 0, 0>>, <<12, 0, 0>>, <<0, 12, 0>>, <<0, 0, 12>>, <<12, 12, 0>>, <<12, 12, 12>>, <<6, 6, 0>>, <<6, 0, 0>>, <<8, 8, 0>>, <<18, 6, 3>>, <<-12, 12, 0>>}
Names == {"GAMMA", "X", "M", "SIGMA_0", "K"}
VARIABLES c, todo, left
vars == <<c, todo, left>>
Init == /\ todo = "crystal" /\ c = [x |-> "none"] /\ left = 0
Crystal == /\ todo = "crystal" /\ todo' = "options" /\ UNCHANGED left
           /\ \E x \in Crystals, s \in {0, 1, 2}, sym \in BOOLEAN, k \in {"scale", "level", "cross"}, w \in {"same", "level", "cross"} :
                c' = [x |-> x, seed |-> s, sym |-> sym, fcsym |-> FALSE, kind |-> k, width |-> w]
Options == /\ todo = "options" /\ todo' = "path" /\ left' \in 1..3
           /\ \E b \in 1..(IF Big THEN 5 ELSE 4), l \in BOOLEAN, con \in BOOLEAN, int \in BOOLEAN, wid \in BOOLEAN, m \in {<<2, 1, 1>>, <<4, 1, 1>>, <<2, 2, 1>>, <<3, 1, 2>>, <<2, 2, 2>>} :
                c' = [res |-> b, labelled |-> l, connect |-> con, inter |-> int, wide |-> wid, mesh |-> m, paths |-> <<>>, names |-> <<>>] @@ c
Path == /\ todo = "path" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED todo
        /\ \E a \in Nodes, b \in Nodes, j \in BOOLEAN, p \in Names, q \in Names :
             /\ LET n == Len(c.paths)
                    from == IF n > 0 /\ ~j THEN c.paths[n][2] ELSE a
                    name == IF n > 0 /\ ~j THEN c.names[n][2] ELSE p
                IN /\ from # b
                   /\ c' = [c EXCEPT !.paths = Append(@, <<from, b>>), !.names = Append(@, <<name, q>>)]
Done == /\ todo = "path" /\ left = 0 /\ todo' = "done" /\ PrintT("BEH " \o ToJson(c)) /\ UNCHANGED <<c, left>>
Next == Crystal \/ Options \/ Path \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
