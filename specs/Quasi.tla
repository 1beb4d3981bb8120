------------------------------- MODULE Quasi -------------------------------
(***************************************************************************)
(* The calculation object: a set of settings, and results that are         *)
(* computed on demand and kept.  Every kept result remembers (ghost) the   *)
(* settings it was computed from; the property is that what is kept always *)
(* corresponds to the settings in force (Coherent), whatever the history   *)
(* of changes and requests.                                                *)
(*                                                                         *)
(* Structured like the code: one action per setting method, one per        *)
(* request; a request may use other kept results (Uses), a setting method  *)
(* drops the results named in Drops.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxDiff,      \* exhaustive runs: how many settings may differ from the initial ones
          MaxHist       \* length of a behaviour (generation runs)

\* ---------------------------------------------------------------- settings
Keys == {"q", "alg", "lim", "res", "mem", "fit", "proj", "nac", "band", "qha", "crop", "temp"}

Auto == 9               \* the frequency limits that the commensurate points analysis sets

Domain == [ q    |-> {0, 1, 2, 3},      \* 1 and 2 are equivalent by symmetry
            alg  |-> {0, 1, 2, 3},      \* correlation, MEM, FFT (numpy), FFT (fftw)
            lim  |-> {1, 2, 3},
            res  |-> {1, 2},
            mem  |-> {1, 2},
            fit  |-> {0, 1, 2},
            proj |-> {1, 2},            \* 0: nothing projected (initial, no way back)
            nac  |-> {0, 1},
            band |-> {1, 2},
            qha  |-> {1, 2},            \* 0: none (initial)
            crop |-> {1, 2},            \* 0: all steps (initial)
            temp |-> {1, 2} ]           \* 0: from the velocities (initial)

Init0 == [ q |-> 0, alg |-> 1, lim |-> 1, res |-> 1, mem |-> 1, fit |-> 0, proj |-> 0,
           nac |-> 0, band |-> 1, qha |-> 0, crop |-> 0, temp |-> 0 ]

\* ----------------------------------------------------------------- results
Kept  == {"freq", "eig", "vc", "vq", "psp", "psw", "psf", "part", "comm", "rfc", "temp", "hbands"}
Fresh == {"bands", "mesh", "thm", "thmr", "gv"}            \* computed on every request
Results == Kept \cup Fresh

\* settings read directly by the computation of a result
Reads == [ freq |-> {"q"}, eig |-> {"q"}, vc |-> {"q", "proj", "crop"}, vq |-> {},
           psp |-> {"alg", "lim", "res", "mem"}, psw |-> {"alg", "lim", "res", "mem"},
           psf |-> {"alg", "lim", "res", "mem", "proj", "crop"},
           part |-> {"alg", "lim", "res", "mem", "crop"},
           comm |-> {"alg", "lim", "res", "mem", "proj", "crop", "fit", "qha"}, rfc |-> {},
           temp |-> {"temp", "crop"}, hbands |-> {"band", "nac"},
           bands |-> {"band", "nac"}, mesh |-> {}, gv |-> {},
           thm |-> {"lim", "res", "proj", "nac"}, thmr |-> {"lim", "res", "proj", "nac"} ]

\* kept results used by the computation of a result
Uses == [ freq |-> {}, eig |-> {}, vc |-> {}, vq |-> {"vc", "eig"}, psp |-> {"vq"}, psw |-> {"vc"},
          psf |-> {}, part |-> {}, comm |-> {}, rfc |-> {"comm"}, temp |-> {}, hbands |-> {},
          bands |-> {"rfc", "comm"}, mesh |-> {"comm"}, gv |-> {"rfc"}, thm |-> {"temp"},
          thmr |-> {"temp", "rfc"} ]

RECURSIVE Depends(_)
Depends(r) == Reads[r] \cup UNION {Depends(u) : u \in Uses[r]}

\* A setting that a result depends on only under a condition
Proj(r, s) ==
  [k \in Depends(r) |->
      IF k = "mem" /\ s.alg # 1 THEN 0              \* coefficients matter for MEM only
      ELSE IF k = "crop" /\ r = "temp" /\ s.temp # 0 THEN 0
      ELSE s[k]]

\* ------------------------------------------------- what the setters drop
Spectra == {"psp", "psw", "psf", "part"}
FCs     == {"comm", "rfc", "hbands"}
OfQ     == {"eig", "freq", "vc", "vq", "psf", "psw", "psp"}

Drops == [ q |-> OfQ, alg |-> Spectra \cup FCs, lim |-> Spectra \cup FCs, res |-> Spectra \cup FCs,
           mem |-> Spectra \cup FCs, fit |-> FCs, proj |-> {"vc", "vq"} \cup Spectra \cup FCs,
           nac |-> {"hbands"}, band |-> {"hbands"}, qha |-> FCs,
           crop |-> {"vc", "vq"} \cup Spectra \cup FCs \cup {"temp"}, temp |-> {"temp"} ]

\* -------------------------------------------------------------- transitions
None == [none |-> TRUE]

\* the settings after the request of r: only the analysis of the commensurate
\* points changes one, the frequency range
NeedsComm(r) == r = "comm" \/ "comm" \in Uses[r] \/ "rfc" \in Uses[r]

AfterAsk(r, s) == IF NeedsComm(r) THEN [s EXCEPT !.lim = Auto] ELSE s

AfterSet(k, v, s) ==
  CASE k = "crop" -> [s EXCEPT !.crop = IF v > @ THEN v ELSE @]   \* a larger index keeps fewer steps
    [] OTHER      -> [s EXCEPT ![k] = v]

VARIABLES s,        \* settings in force
          kept,     \* result -> settings it was computed from, or None
          hist      \* the behaviour (generation runs only)

vars == <<s, kept, hist>>

Init == /\ s = Init0
        /\ kept = [r \in Kept |-> None]
        /\ hist = <<>>

\* snapshot of the settings that the value of r comes from, when it is
\* computed now out of the results in c
RECURSIVE Snap(_, _, _)
Snap(r, t, c) ==
  IF r \in Kept /\ c[r] # None THEN c[r]
  ELSE LET own == [k \in Reads[r] |-> IF k = "mem" /\ t.alg # 1 THEN 0
                                      ELSE IF k = "crop" /\ r = "temp" /\ t.temp # 0 THEN 0 ELSE t[k]]
           sub == [u \in Uses[r] |-> Snap(u, t, c)]
       IN [k \in Depends(r) |->
             IF k \in Reads[r] THEN own[k]
             ELSE sub[CHOOSE u \in Uses[r] : k \in DOMAIN sub[u]][k]]

RECURSIVE Closure(_)
Closure(r) == {r} \cup UNION {Closure(u) : u \in Uses[r]}

Set(k, v) ==
  /\ s' = AfterSet(k, v, s)
  /\ kept' = IF s' = s THEN kept
             ELSE [r \in Kept |-> IF r \in Drops[k] THEN None ELSE kept[r]]

Ask(r) ==
  LET t  == AfterAsk(r, s)
      \* a change of the range by the request drops what any change of range drops;
      \* visiting the other wave vectors drops what a change of wave vector drops
      c0 == IF NeedsComm(r) /\ kept["comm"] = None
            THEN [x \in Kept |-> IF x \in OfQ \cup (IF t # s THEN Drops["lim"] ELSE {}) THEN None ELSE kept[x]]
            ELSE kept
  IN /\ s' = t
     /\ kept' = [x \in Kept |-> IF x \in Closure(r) /\ c0[x] = None THEN Snap(x, t, c0) ELSE c0[x]]

AskRec(r) == Ask(r) /\ hist' = IF MaxHist > 0 THEN Append(hist, [op |-> "ask", k |-> r, v |-> 0, st |-> s']) ELSE hist
SetRec(k, v) == Set(k, v) /\ hist' = IF MaxHist > 0 THEN Append(hist, [op |-> "set", k |-> k, v |-> v, st |-> s']) ELSE hist

\* a value that the setting cannot take is refused: nothing changes
Refusing == {"alg", "fit", "proj", "band"}
RefuseRec(k) ==
  /\ UNCHANGED <<s, kept>>
  /\ hist' = IF MaxHist > 0 THEN Append(hist, [op |-> "bad", k |-> k, v |-> 0, st |-> s]) ELSE hist

Next == \/ \E r \in Results : AskRec(r)
        \/ \E k \in Keys : \E v \in Domain[k] : SetRec(k, v)
        \/ \E k \in Refusing : RefuseRec(k)

Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
TypeOK == /\ \A k \in Keys : s[k] \in Domain[k] \cup {Init0[k], Auto}

Coherent == \A r \in Kept : kept[r] = None \/ kept[r] = Proj(r, s)

\* a request changes no setting, except the frequency range
RequestsKeepSettings ==
  [][ (\E r \in Results : Ask(r)) => \A k \in Keys \ {"lim"} : s'[k] = s[k] ]_vars

\* the analysis of commensurate points is kept only while its own range is in force
CommHasAutoRange == kept["comm"] # None => s.lim = Auto

Bounded == Cardinality({k \in Keys : s[k] # Init0[k]}) <= MaxDiff
=============================================================================
