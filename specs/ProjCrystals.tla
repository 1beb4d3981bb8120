---------------------------- MODULE ProjCrystals ----------------------------
(* crystals in quarters of the unit cell *)
EXTENDS Integers, Sequences
I2 == <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>
FCC == <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>
BCC == <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>
ACEN == <<<<2, 0, 0>>, <<0, 1, -1>>, <<0, 1, 1>>>>
\* oblique choice of the same lattice as I2
SKEW == <<<<2, 2, 0>>, <<0, 2, 2>>, <<0, 0, 2>>>>
Crystals == <<
  [F4 |-> <<<<0, 0, 0>>, <<2, 2, 2>>>>, type |-> <<1, 2>>, nt |-> 2, W |-> <<1, 2>>, PM2 |-> I2],
  [F4 |-> <<<<0, 0, 0>>, <<0, 2, 2>>, <<2, 0, 2>>, <<2, 2, 0>>>>, type |-> <<1, 1, 1, 1>>, nt |-> 1, W |-> <<3, 3, 3, 3>>, PM2 |-> FCC],
  [F4 |-> <<<<0, 0, 0>>, <<1, 1, 1>>, <<0, 2, 2>>, <<2, 0, 2>>, <<2, 2, 0>>, <<1, 3, 3>>, <<3, 1, 3>>, <<3, 3, 1>>>>,
   type |-> <<1, 2, 1, 1, 1, 2, 2, 2>>, nt |-> 2, W |-> <<2, 3, 2, 2, 2, 3, 3, 3>>, PM2 |-> FCC],
  [F4 |-> <<<<1, 0, 0>>, <<0, 0, 2>>, <<3, 2, 2>>, <<2, 2, 4>>>>, type |-> <<1, 2, 1, 2>>, nt |-> 2, W |-> <<4, 1, 4, 1>>, PM2 |-> BCC],
  [F4 |-> <<<<0, 0, 0>>, <<1, 2, 0>>, <<0, 2, 2>>, <<1, 0, 2>>>>, type |-> <<1, 2, 1, 2>>, nt |-> 2, W |-> <<2, 2, 2, 2>>, PM2 |-> ACEN],
  [F4 |-> <<<<0, 0, 0>>, <<0, 1, 2>>, <<2, 0, 3>>>>, type |-> <<1, 2, 3>>, nt |-> 3, W |-> <<1, 3, 2>>, PM2 |-> SKEW] >>
=============================================================================
