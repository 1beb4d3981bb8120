----------------------------- MODULE StructDefs -----------------------------
EXTENDS Naturals, Sequences
\* force constants, force sets, and force sets for another number of atoms than the supercell they are given for
ForceKinds == << [kind |-> "fc", sc |-> <<2, 1, 1>>, ok |-> TRUE],
                 [kind |-> "fs", sc |-> <<1, 2, 1>>, ok |-> TRUE],
                 [kind |-> "fc", sc |-> <<1, 1, 3>>, ok |-> TRUE],
                 [kind |-> "fs", sc |-> <<2, 2, 1>>, ok |-> FALSE] >>
=============================================================================
