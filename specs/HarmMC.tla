------------------------------- MODULE HarmMC -------------------------------
EXTENDS Harm
VARIABLES added
Times == [{c \in Classes : c # {<<0, 0>>}} -> 0..3]
Moving == Waves \ {<<0, 0>>}                                            \* the acoustic phonons at zero do not move
Velocity(s, t, r) == MapThenSumSet(LAMBDA q : Amplitude(q) * Re(Turn(q, r) + 4 - t[ClassOf(q)] + 3), s)
Init == added = {}
Add == \E q \in Moving \ added : added' = added \cup {q}
Spec == Init /\ [][Add]_added /\ WF_added(Add)
Energy(s) == MapThenSumSet(LAMBDA t : MapThenSumSet(LAMBDA r : Velocity(s, t, r) * Velocity(s, t, r), Sites), Times)
\* each phonon adds its own energy, whatever the others: with N squares of amplitudes of 2kT it is kT/2 after the mean over the clocks
Own == 2 * Energy(added) = Cardinality(Times) * N1 * N2 * MapThenSumSet(LAMBDA q : Amplitude(q) * Amplitude(q), added)
\* the centre of mass rests
Rest == \A t \in Times : MapThenSumSet(LAMBDA r : Velocity(added, t, r), Sites) = 0
Complete == <>(added = Moving)
=============================================================================
