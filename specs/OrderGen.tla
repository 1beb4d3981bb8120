------------------------------ MODULE OrderGen ------------------------------
(* files with the atoms in other orders, displaced and wrapped; and MD cells that are (not) multiples of the unit cell *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NC, Dims, MaxCells
VARIABLES c
Sc == {s \in {<<a, b, d>> : a, b, d \in Dims} : s[1] * s[2] * s[3] <= MaxCells}
Files == [task : {"order"}, c : 1..NC, sc : Sc, fmt : {"lammps", "xdatcar", "outcar"},
          perm : {"same", "reverse", "cells", "slow", "chance"}, wrap : {"none", "cell", "any"}]
Cells == [task : {"cell"}, c : 1..NC, sc : {<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 2>>, <<3, 1, 2>>}, dev : {<<a, b, d>> : a, b, d \in {-1, 0, 1}}, big : BOOLEAN]
Init == c = [task |-> "none"]
Next == /\ c.task = "none" /\ \E x \in Files \cup Cells : c' = x /\ PrintT("BEH " \o ToJson(x))
Spec == Init /\ [][Next]_c
=============================================================================
