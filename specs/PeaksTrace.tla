----------------------------- MODULE PeaksTrace -----------------------------
(* answers of the analysis of the peaks against Peaks *)
EXTENDS Peaks, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Traces == Job.traces
VARIABLES i, j, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Step(e) ==
  CASE e.op = "add" -> modes' = Append(modes, [gap |-> e.v[1], peak |-> e.v[2], area |-> e.v[3]]) /\ UNCHANGED <<sym, fn, shifted, grid, base>>
    [] e.op = "drop" -> modes' = SubSeq(modes, 1, Len(modes) - 1) /\ UNCHANGED <<sym, fn, shifted, grid, base>>
    [] e.op = "sym" -> sym' = ~sym /\ UNCHANGED <<modes, fn, shifted, grid, base>>
    [] e.op = "shift" -> shifted' = ~shifted /\ UNCHANGED <<modes, sym, fn, grid, base>>
    [] e.op = "fn" -> fn' = e.v[1] /\ UNCHANGED <<modes, sym, shifted, grid, base>>
    [] e.op = "grid" -> grid' = e.v[1] /\ UNCHANGED <<modes, sym, fn, shifted, base>>
    [] e.op = "base" -> base' = ~base /\ UNCHANGED <<modes, sym, fn, shifted, grid>>
    [] OTHER -> UNCHANGED <<modes, sym, fn, shifted, grid, base>>
Names == <<"lorentzian", "asymmetric", "damped">>
\* observed: places and widths in 10^-6 THz, areas (half of dt_Q2) in 10^-4
AreaOK(x, a) == Abs(x * a.den - 10000 * a.num) <= (CASE fn = 0 -> 10 [] fn = 1 -> 650 [] OTHER -> 150) * a.num + 2
Judge(e) ==
  IF e.op # "ask" THEN {}
  ELSE IF e.died THEN {"refused"}
  ELSE IF ~(Len(e.place) = Len(modes) /\ Len(e.width) = Len(modes) /\ Len(e.area) = Len(modes)) THEN {"number of phonons"}
  ELSE UNION {LET a == Answer(k) IN
       {c \o ":" \o Names[fn + 1] \o (IF ~Found(k) THEN ":not found" ELSE "") :
        c \in {c \in {"place", "width", "area"} : ~(CASE c = "place" -> Abs(e.place[k] - 10000 * a.place) <= 200
                                                 [] c = "width" -> Abs(e.width[k] - 10000 * a.width) <= 200
                                                 [] fn # 0 /\ base -> TRUE    \* (includes what lies below the peak)
                                                 [] OTHER -> AreaOK(e.area[k], a))}} : k \in 1..Len(modes)}
TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>>
TNext ==
  /\ UNCHANGED hist
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET t == Traces[i] IN
          IF j <= Len(t.events)
          THEN /\ Step(t.events[j])
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(t.events[j])})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED bad /\ modes' = <<>> /\ sym' = TRUE /\ fn' = 0 /\ shifted' = FALSE /\ grid' = 1 /\ base' = FALSE
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, i, j, bad>>
=============================================================================
