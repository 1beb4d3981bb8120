----------------------------- MODULE WrapTrace -----------------------------
(* displacements answered by the real code for a trajectory; integers (multiples of the unit of length, checked by the driver) *)
EXTENDS Wrap, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Traces == Job.traces
NoSet == {}
VARIABLES i, j, bad
Step(e) ==
  CASE e.op = "dim" -> n' = e.v[1] /\ cell' = 1 /\ site' = Zero(e.v[1]) /\ at' = Zero(e.v[1]) /\ path' = <<>> /\ UNCHANGED lay
    [] e.op = "step" -> Go([at EXCEPT ![e.v[1]] = @ + e.v[2]]) /\ UNCHANGED <<n, cell, site, lay>>
    [] e.op = "hop" -> Go(Add(at, Mul(e.v[2], M0[e.v[1]]))) /\ UNCHANGED <<n, cell, site, lay>>
    [] e.op = "site" -> site' = [site EXCEPT ![e.v[1]] = @ + e.v[2]] /\ UNCHANGED <<n, cell, at, path, lay>>
    [] e.op = "cell" -> cell' = e.v[1] /\ UNCHANGED <<n, site, at, path, lay>>
    [] e.op = "forget" -> path' = <<>> /\ UNCHANGED <<n, cell, site, at, lay>>
    [] OTHER -> UNCHANGED <<n, cell, site, at, path, lay>>
Right(d) == Len(d) = Len(path) /\ \A k \in 1..Len(path) : Len(d[k]) = n /\ IsDisp(M0, site, path[k], d[k])
Judge(e) ==
  IF e.op # "ask" \/ path = <<>> THEN {}
  ELSE IF e.died THEN {"refused"}
  ELSE (IF Right(e.obs) THEN {} ELSE {"displacement"}) \cup (IF Right(e.dyn) THEN {} ELSE {"trajectory"})
       \cup (IF e.exact THEN {} ELSE {"not a lattice vector away"}) \cup (IF e.kept THEN {} ELSE {"data changed"})
TInit == Init /\ n = 1 /\ i = 1 /\ j = 1 /\ bad = <<>>
TNext ==
  /\ UNCHANGED hist
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET x == Traces[i] IN
          IF j <= Len(x.events)
          THEN /\ Step(x.events[j])
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(x.events[j])})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<bad, n, cell, site, at, path, lay>>
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, i, j, bad>>
=============================================================================
