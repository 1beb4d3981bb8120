----------------------------- MODULE QuasiTrace -----------------------------
(***************************************************************************)
(* Trace validation: recorded sessions with the calculation object against *)
(* Quasi.  The settings of the model are driven by the recorded operations;*)
(* every recorded observation is judged; a failing one adds a clause to    *)
(* bad (never stops the run), so that the verdict is total.                *)
(* An event: op (init, set, ask, bad), k, v, raised, back (settings read   *)
(* back), range/pre (frequency range after/before: lo, hi, step, even, in  *)
(* millionths), same_range; for a request: oraised, fresh, asof, orange.   *)
(***************************************************************************)
EXTENDS Quasi, Json, Integers, SequencesExt

Traces == JsonDeserialize("traces.json").traces
Lim == JsonDeserialize("traces.json").lim           \* [token -> <<lo, hi>>] in millionths
Res == JsonDeserialize("traces.json").res           \* [token -> step]

VARIABLES i, j, m, visited, bad
tvars == <<i, j, m, visited, bad>>

Readable == {"q", "alg", "res", "mem", "fit", "proj", "nac", "band", "crop"}
Tol == 5

Near(a, b) == a - b <= Tol /\ b - a <= Tol

\* the range of limits lo, hi with step st covers them and goes beyond hi by a step at most
Covers(rg, lo, hi, st) ==
  /\ rg.even /\ Near(rg.lo, lo) /\ Near(rg.step, st)
  /\ rg.hi >= hi - Tol /\ rg.hi <= hi + st + Tol

StepOf(t) == Res[t.res]

RangeRule(e, t, keptcomm) ==
  CASE e.op = "set" /\ e.k = "lim" -> Covers(e.range, Lim[e.v][1], Lim[e.v][2], StepOf(t))
    [] e.op = "set" /\ e.k = "res" -> Covers(e.range, e.pre.lo, e.pre.hi, StepOf(t))
    [] e.op = "ask" /\ NeedsComm(e.k) /\ ~e.raised ->
          /\ Near(e.range.lo, 0) /\ Near(e.range.step, StepOf(t)) /\ e.range.even
          /\ (e.k = "comm" => Near(e.range.hi, e.orange.hi))
    [] e.op = "init" -> TRUE
    [] OTHER -> e.same_range \/ (e.op = "ask" /\ NeedsComm(e.k))

\* settings in which the visited state n differs from the present one, among those r depends on
Stale(r, n, t) == {k \in Depends(r) : visited[n][k] # t[k]}

RECURSIVE Join(_)
Join(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN "," \o x \o Join(S \ {x})

Clauses(e, t) ==
  LET back == {<<"C02", "readback:" \o k \o ":after:" \o e.op \o ":" \o e.k>> :
                 k \in {k2 \in Readable : e.back[k2] # t[k2] /\ ~(k2 = "res" /\ e.op = "init")}}
      rng  == IF RangeRule(e, t, FALSE) THEN {} ELSE {<<"C02", "range:after:" \o e.op \o ":" \o e.k>>}
      req  == IF e.op # "ask" THEN {}
              ELSE IF e.raised /\ ~e.oraised THEN {<<"C01", "refused:" \o e.k>>}
              ELSE IF ~e.raised /\ e.oraised THEN {<<"C01", "accepted:" \o e.k>>}
              ELSE IF e.raised THEN {}
              ELSE IF e.fresh THEN {}
              ELSE {<<"C01", "stale:" \o e.k \o
                      (IF e.asof < 0 THEN ":unknown" ELSE Join(Stale(e.k, e.asof + 1, t)))>>}
      sets == IF e.op = "set" /\ e.raised THEN {<<"C02", "refused:set:" \o e.k>>}
              ELSE IF e.op = "bad" /\ ~e.raised THEN {<<"C02", "accepted:bad:" \o e.k>>} ELSE {}
  IN back \cup rng \cup req \cup sets

After(e, t) == IF e.op = "set" THEN AfterSet(e.k, e.v, t)
               ELSE IF e.op = "ask" /\ ~e.raised THEN AfterAsk(e.k, t) ELSE t

TInit == /\ i = 1 /\ j = 1 /\ m = Init0 /\ visited = <<>> /\ bad = <<>>
         /\ s = Init0 /\ kept = [r \in Kept |-> None] /\ hist = <<>>

Event == /\ i <= Len(Traces) /\ j <= Len(Traces[i].events)
         /\ LET e == Traces[i].events[j]
                t == After(e, m)
            IN /\ m' = t
               /\ visited' = Append(visited, t)
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, prop |-> c[1], clause |-> c[2]] : c \in Clauses(e, t)})
         /\ j' = j + 1 /\ UNCHANGED i

NextTrace == /\ i <= Len(Traces) /\ j > Len(Traces[i].events)
             /\ bad' = IF Traces[i].died
                       THEN Append(bad, [trace |-> i, at |-> 0, prop |-> "C01", clause |-> "session died"]) ELSE bad
             /\ i' = i + 1 /\ j' = 1 /\ m' = Init0 /\ visited' = <<>>

Done == /\ i = Len(Traces) + 1 /\ j = 1
        /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
        /\ j' = 2 /\ UNCHANGED <<i, m, visited, bad>>

TNext == (Event \/ NextTrace \/ Done) /\ UNCHANGED <<s, kept, hist>>
TSpec == TInit /\ [][TNext]_<<tvars, vars>>

\* the settings of the model stay within their domains on every recorded session
ModelTypeOK == \A k \in Keys : m[k] \in Domain[k] \cup {Init0[k], Auto}
=============================================================================
