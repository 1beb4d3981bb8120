----------------------------- MODULE SupercellMC -----------------------------
(***************************************************************************)
(* A writer that emits the atoms of the supercell one at a time and keeps  *)
(* the runs of elements, for every small supercell and every arrangement   *)
(* of elements; and a reader that expands the runs.                        *)
(***************************************************************************)
EXTENDS Supercell, FiniteSets, TLC

CONSTANTS MaxAtoms, MaxDim, Els

VARIABLES el, sc, n, out, names, counts
vars == <<el, sc, n, out, names, counts>>

Dims == 1..MaxDim
Init == /\ el \in UNION {[1..k -> Els] : k \in 1..MaxAtoms}
        /\ sc \in {<<a, b, c>> : a, b, c \in Dims}
        /\ n = 0 /\ out = <<>> /\ names = <<>> /\ counts = <<>>

N == Len(el) * Cells(sc)
Emit ==
  /\ n < N /\ n' = n + 1
  /\ LET e == el[AtomOf(sc, n + 1)]
         run == names # <<>> /\ names[Len(names)] = e
     IN /\ out' = Append(out, <<AtomOf(sc, n + 1), ShiftOf(sc, n + 1)>>)
        /\ names' = IF run THEN names ELSE Append(names, e)
        /\ counts' = IF run THEN [counts EXCEPT ![Len(counts)] = @ + 1] ELSE Append(counts, 1)
  /\ UNCHANGED <<el, sc>>
Spec == Init /\ [][Emit]_vars

\* every atom of the crystal modulo the supercell exactly once
Complete == n = N => /\ Len(out) = Cardinality({out[x] : x \in 1..Len(out)})
                     /\ {out[x] : x \in 1..Len(out)} =
                          (1..Len(el)) \X {<<a, b, c>> : a \in 0..sc[1] - 1, b \in 0..sc[2] - 1, c \in 0..sc[3] - 1}
\* the runs describe the atoms emitted, and no two consecutive runs are of the same element
Runs == /\ Expand(names, counts) = [x \in 1..Len(out) |-> el[out[x][1]]]
        /\ \A x \in 1..Len(names) - 1 : names[x] # names[x + 1]
\* the order does not depend on the supercell asked for: images of one atom are consecutive
Grouped == \A x, y \in 1..Len(out) : x < y => out[x][1] <= out[y][1]
=============================================================================
