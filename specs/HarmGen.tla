------------------------------- MODULE HarmGen -------------------------------
(* cases: a crystal, cells of the generated trajectory, time (10^-4 ps), temperature, lowest frequency (10^-1 THz), phase, way *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Big
Crystals == {"tetra", "ortho", "tric", "conv", "convmix", "bcc", "mono", "hex", "chain", "couple"}
VARIABLES c, todo
Init == todo = "crystal" /\ c = [x |-> "none"]
Crystal == /\ todo = "crystal"
           /\ \E x \in Crystals, m \in {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 2, 1>>, <<1, 2, 2>>, <<3, 1, 1>>, <<1, 3, 1>>, <<3, 2, 1>>, <<2, 2, 2>>, <<1, 1, 4>>} :
                /\ x \in {"conv", "convmix"} => m[1] * m[2] * m[3] <= (IF Big THEN 8 ELSE 4)
                /\ todo' \in (IF m \in {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 1, 2>>} THEN {"time", "default"} ELSE {"time"})
                /\ c' = [x |-> x, sc |-> m]
Time == /\ todo = "time" /\ todo' = "rest"
        /\ \E dt \in {40, 75, 100}, n \in (IF Big THEN {150, 261, 400} ELSE {150, 261}), e \in {0, 13}, T \in {50, 300, 731} :
             c' = [dt |-> dt, total |-> dt * n - e, T |-> T] @@ c
(* nothing said: 2 ps in steps of 0.002 ps at 400 K *)
Default == /\ todo = "default" /\ todo' = "rest" /\ c' = [dt |-> 20, total |-> 20000, T |-> 400] @@ c
Rest == /\ todo = "rest" /\ todo' = "show"
        /\ \E w \in {"api", "api", "cli"}, low \in {1, 30}, p \in 0..2, mm \in BOOLEAN :
             /\ w = "cli" => low = 1 /\ p = 0                     \* those of the library by default
             /\ c' = [way |-> w, low |-> low, phase |-> p, mm |-> mm] @@ c
Show == todo = "show" /\ todo' = "done" /\ PrintT("BEH " \o ToJson(c)) /\ UNCHANGED c
Spec == Init /\ [][Crystal \/ Time \/ Default \/ Rest \/ Show]_<<c, todo>>
=============================================================================
