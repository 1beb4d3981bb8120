----------------------------- MODULE StoreTrace -----------------------------
(* files and objects of the real code against Store; numbers times 1000 *)
EXTENDS Store, Integers, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Tab == Job.table      \* traj[step], vel[source + 1][index], vc[q][source + 1][index], q[k], super
Traces == Job.traces
VARIABLES i, j, bad
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Near(_, _)
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= 1
\* parts observed (flat sequences of integers per step) against the labels
Part(o, labels, Of(_)) == IF labels = No THEN o = <<>> ELSE Len(o) = Len(labels) /\ \A k \in 1..Len(labels) : Near(o[k], Of(labels[k]))
TimesOK(o, x) == Len(o) = Count(x) /\ \A k \in 1..Len(o) : Abs(o[k] - (Job.start + Job.step * (x.t0 + k - 1))) <= 1
Seen(o, x, isobj) ==
  LET v == IF isobj /\ x.kind = "data" THEN Vel(x) ELSE x.vel
      r == [positions  |-> Part(o.traj, x.traj, LAMBDA k : Tab.traj[k]),
            velocities |-> Part(o.vel, v, LAMBDA p : Tab.vel[p[1] + 1][p[2]]),
            projected  |-> Part(o.vc, x.vc, LAMBDA p : Tab.vc[x.q][p[1] + 1][p[2]]),
            wavevector |-> IF x.q = 0 THEN o.q = <<>> ELSE Near(o.q, Tab.q[x.q]),
            times      |-> TimesOK(o.time, x),
            supercell  |-> o.super = Tab.super]
  IN {"wrong:" \o f : f \in {f \in DOMAIN r : ~r[f]}}
\* the file or object an operation leaves (r: as Effect)
Judge(e, r) ==
  IF e.died # r.refused THEN {(IF e.died THEN "refused:" ELSE "accepted:") \o e.op}
  ELSE IF e.died THEN IF e.kept THEN {} ELSE {"file changed by a refused " \o e.op}
  ELSE {c \o ":" \o e.op : c \in
        IF e.op \in {"new", "crop", "load"} THEN Seen(e.obs, r.obj, TRUE)
        ELSE Seen(e.obs, r.file[IF e.op \in {"convert", "join"} THEN e.h ELSE e.f], FALSE)
             \cup (IF e.kept THEN {} ELSE {"other file changed"})}
TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>>
TNext ==
  /\ UNCHANGED hist
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET t == Traces[i] IN
          IF j <= Len(t.events)
          THEN \E r \in {Effect(obj, file, t.events[j])} :
               /\ obj' = r.obj /\ file' = r.file /\ refused' = r.refused
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(t.events[j], r)})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED bad /\ obj' = NoFile /\ file' = [f \in Names |-> NoFile] /\ refused' = FALSE
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, i, j, bad>>
=============================================================================
