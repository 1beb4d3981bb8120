----------------------------- MODULE ThermoTrace -----------------------------
(* thermal properties answered by the real code against Thermo: fixed point, integrals in units of f0 / 3 *)
EXTENDS Thermo, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Traces == Job.traces
VARIABLES i, j, bad
Step(e) ==
  CASE e.op = "put" -> g' = [g EXCEPT ![e.v[1]] = e.v[2]] /\ UNCHANGED <<gh, t, from>>
    [] e.op = "keep" -> gh' = g /\ UNCHANGED <<g, t, from>>
    [] e.op = "level" -> t' = e.v[1] /\ UNCHANGED <<g, gh, from>>
    [] e.op = "from" -> from' = e.v[1] /\ UNCHANGED <<g, gh, t>>
    [] OTHER -> UNCHANGED <<g, gh, t, from>>
Close(x, y) == Abs(x - y) <= 300 + Abs(y) \div 20000
Judge(e) ==
  IF e.op # "ask" THEN {}
  ELSE IF e.died THEN {"refused"}
  ELSE LET r == [energy |-> Close(e.obs.energy, U), free |-> Close(e.obs.free, F), entropy |-> Close(e.obs.entropy, S), heat |-> Close(e.obs.heat, C),
                 entropy2 |-> e.obs.entropy2 = -1 \/ Close(e.obs.entropy2, S),
                 correction |-> Close(e.obs.correction, Correction),
                 \* density of states from kinetic energies: twice over k_B T and the number of cells; or over the energy of the oscillator
                 dos |-> \A k \in from..K : Close(e.obs.dos[k - from + 1], (2 * g[k] * 2 ^ t * Unit) \div 3),
                 quantum |-> \A k \in from..K : k = 0 \/ Abs(e.obs.quantum[k - from + 1] * (Energy(k) \div 1000) - 2000 * g[k] * (Unit \div 3)) <= (1 + g[k]) * 3000000]
       IN {f \in DOMAIN r : ~r[f]}
TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>>
TNext ==
  /\ UNCHANGED hist
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET x == Traces[i] IN
          IF j <= Len(x.events)
          THEN /\ Step(x.events[j])
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(x.events[j])})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED bad /\ g' = [k \in 0..K |-> IF k \in {2, 5} THEN 1 ELSE 0] /\ gh' = Zero /\ t' = 0 /\ from' = 0
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, i, j, bad>>
=============================================================================
