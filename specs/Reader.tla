------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading part of a trajectory file.  The reader walks over the file step *)
(* by step; the declarative window says which steps have to come out.      *)
(* The file holds nfull complete steps, possibly followed by a part of one.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxSteps,     \* steps in a file
          Limits,       \* maximum number of steps to read (0: no maximum given)
          Lasts         \* last steps to keep (0: all)

NoEnd == 0
Min(a, b) == IF a < b THEN a ELSE b

\* steps that a request has to deliver from a file with nfull complete steps
Window(nfull, a, b, lim, last) ==
  LET hi0 == IF b = NoEnd THEN nfull ELSE Min(b, nfull)
      hi  == IF lim = 0 THEN hi0 ELSE Min(hi0, a + lim - 1)
      lo  == IF last = 0 \/ hi < last \/ hi - last + 1 < a THEN a ELSE hi - last + 1
  IN [k \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> lo + k - 1]

VARIABLES nfull, part, a, b, lim, last, at, kept, pc
vars == <<nfull, part, a, b, lim, last, at, kept, pc>>

Init ==
  /\ nfull \in 0..MaxSteps /\ part \in BOOLEAN
  /\ a \in 1..(MaxSteps + 1)
  /\ b \in {NoEnd} \cup a..(MaxSteps + 2)
  /\ lim \in Limits /\ last \in Lasts
  /\ at = 0 /\ kept = <<>> /\ pc = "scan"

\* next step of the file
Scan ==
  /\ pc = "scan"
  /\ at' = at + 1
  /\ IF at + 1 > nfull THEN pc' = "cut" /\ UNCHANGED kept            \* end of file, or the incomplete step
     ELSE IF at + 1 < a THEN UNCHANGED <<kept, pc>>                  \* skipped
     ELSE /\ kept' = Append(kept, at + 1)
          /\ pc' = IF (lim # 0 /\ Len(kept) + 1 >= lim) \/ (b # NoEnd /\ at + 1 >= b) THEN "cut" ELSE "scan"
  /\ UNCHANGED <<nfull, part, a, b, lim, last>>

Cut ==
  /\ pc = "cut"
  /\ pc' = IF kept = <<>> THEN "refused" ELSE "done"
  /\ kept' = IF last # 0 /\ Len(kept) > last THEN SubSeq(kept, Len(kept) - last + 1, Len(kept)) ELSE kept
  /\ UNCHANGED <<nfull, part, a, b, lim, last, at>>

Next == Scan \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties
Exact == pc \in {"done", "refused"} => kept = Window(nfull, a, b, lim, last)
Refusal == (pc = "refused") => Window(nfull, a, b, lim, last) = <<>>
NeverPartial == \A k \in 1..Len(kept) : kept[k] <= nfull
InOrder == \A k \in 1..Len(kept) : kept[k] = kept[1] + k - 1
Bounded == lim # 0 => Len(kept) <= lim
Terminates == <>(pc \in {"done", "refused"})
=============================================================================
