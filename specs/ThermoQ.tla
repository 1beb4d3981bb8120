------------------------------- MODULE ThermoQ -------------------------------
(***************************************************************************)
(* Thermal properties of a calculation: composed of the densities of       *)
(* states of the force constants given (else the harmonic ones) and of the *)
(* harmonic ones, for all phonons or those of one atom, normalized or not. *)
(* A case gives, per frequency, the integration weight (w), the properties *)
(* of an oscillator (u: energy, f: free energy, s: entropy, c: heat        *)
(* capacity) and both densities (d, h); fixed point.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
Crystals == {"tetra", "conv", "mono"}
Atoms(x) == IF x = "mono" THEN 1 ELSE 2      \* of the primitive cell
Units(x) == IF x = "conv" THEN 4 ELSE Atoms(x)
\* ------------------------------------------------ cases to run
VARIABLES c, todo
Gen == /\ c \in [crystal : Crystals, atom : -1..1, fc : 0..2, norm : BOOLEAN, temp : {1, 2}, range : {1, 2}]
       /\ c.atom < Atoms(c.crystal) /\ todo = TRUE
GenNext == todo /\ todo' = FALSE /\ PrintT("BEH " \o ToJson(c)) /\ UNCHANGED c
GenSpec == Gen /\ [][GenNext]_<<c, todo>>
=============================================================================
