------------------------------ MODULE InputFile ------------------------------
(***************************************************************************)
(* The input file: sections in any order, comments and blank lines before  *)
(* them; a reader that goes line by line.  What is read does not depend on *)
(* the order of the sections.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Sections,      \* names of the sections that may appear
          MaxSec         \* sections in a file

\* lines of a section after its title (bands: as many as follow, up to a line that is no band)
Body == [ poscar |-> 1, outcar |-> 1, fsets |-> 1, fconst |-> 1, prim |-> 3, super |-> 3, mesh |-> 1, bands |-> 2, bandsl |-> 3 ]
Excludes == { {"poscar", "outcar"}, {"fsets", "fconst"}, {"bands", "bandsl"} }
Counted(s) == s \notin {"bands", "bandsl"}

Orders == {o \in UNION {[1..k -> Sections] : k \in 1..MaxSec} :
             /\ \A x, y \in DOMAIN o : x # y => o[x] # o[y]
             /\ \A e \in Excludes : ~(e \subseteq {o[x] : x \in DOMAIN o})}
Fillers == {"none", "blank", "comment", "titlecomment"}   \* before a section; the last: a comment that holds a title

\* lines: records [is, of, n]
RECURSIVE Lines(_, _)
Lines(o, f) ==
  IF o = <<>> THEN <<>> ELSE
    (IF f = "none" THEN <<>> ELSE IF f = "blank" THEN <<[is |-> "blank", of |-> "", n |-> 0]>>
     ELSE <<[is |-> "comment", of |-> IF f = "comment" THEN "" ELSE "mesh", n |-> 0]>>)
    \o <<[is |-> "title", of |-> Head(o), n |-> 0]>>
    \o [n \in 1..Body[Head(o)] |-> [is |-> "data", of |-> Head(o), n |-> n]]
    \o Lines(Tail(o), f)

VARIABLES order, file, pos, reading, got
vars == <<order, file, pos, reading, got>>

Init == /\ order \in Orders
        /\ \E f \in Fillers : file = Lines(order, f)
        /\ pos = 1 /\ reading = "" /\ got = [s \in {} |-> <<>>]

\* a band section ends at the first line that is no band; it must not swallow the title that ends it
Line ==
  /\ pos <= Len(file) /\ pos' = pos + 1
  /\ LET l == file[pos] IN
     CASE l.is = "comment" \/ l.is = "blank" -> reading' = "" /\ UNCHANGED got
       [] l.is = "title" -> reading' = l.of /\ got' = (l.of :> <<>>) @@ got
       [] l.is = "data" -> IF reading = "" THEN UNCHANGED <<reading, got>>
                           ELSE got' = [got EXCEPT ![reading] = Append(@, <<l.of, l.n>>)] /\ UNCHANGED reading
  /\ UNCHANGED <<order, file>>
Spec == Init /\ [][Line]_vars

\* declarative meaning: every section holds its own lines, whatever the order
Meaning == [s \in {order[x] : x \in DOMAIN order} |-> [n \in 1..Body[s] |-> <<s, n>>]]
ReadsMeaning == pos > Len(file) => got = Meaning
=============================================================================
