------------------------------- MODULE CellGen -------------------------------
(* requests for files with cells, and ways a file with a cell may be written *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NC, Dims
VARIABLES c
Sc == {<<a, b, d>> : a, b, d \in Dims}
Writes == [task : {"vasp"}, c : 1..NC, sc : Sc, frac : BOOLEAN, ch : {FALSE}]
          \cup [task : {"lammps"}, c : 1..NC, sc : Sc, frac : {FALSE}, ch : BOOLEAN]
Reads == [task : {"read"}, c : 1..NC, new : BOOLEAN, mode : {"Direct", "direct", " Direct", "D", "Cartesian", "cart", "  Cartesian", "K"},
          scale : {"1.0", "  2.0000", "0.5", "1.25", "volume"}]
Outcars == [task : {"outcar"}, c : 1..NC]
Clis == [task : {"cli"}, c : 1..NC, sc : {<<1, 1, 1>>, <<2, 1, 3>>}, fmt : {"vasp", "lammps"}]
Init == c = [task |-> "none"]
Next == /\ c.task = "none"
        /\ \E x \in Writes \cup Reads \cup Outcars \cup Clis : c' = x /\ PrintT("BEH " \o ToJson(x))
Spec == Init /\ [][Next]_c
=============================================================================
