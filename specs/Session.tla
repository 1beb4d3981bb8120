------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of a user: a command line (options in any order and the       *)
(* outputs asked), then, if asked, menus.  The session is the settings in  *)
(* force; every output is what the library gives with these settings.      *)
(*                                                                         *)
(* Structured like the script: settings are taken in one order whatever    *)
(* the order of the options, what is saved comes before the limits of the  *)
(* frequencies, what is calculated after them.  The frequency range is     *)
(* kept as what made it: limits given, or those of the analysis of the     *)
(* commensurate wave vectors, then changes of resolution.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Crystals == {"tetra", "ortho", "convmix"}
Sources == {"h5", "h5v", "pos", "vel", "xdat"}       \* HDF5, HDF5 of velocities, LAMMPS positions and velocities, XDATCAR
HasPositions == {"h5", "pos", "xdat"}

\* options: values that can be given (0: not given)
OptVals == [ q |-> 1..4, alg |-> 1..4, mem |-> 1..2, fit |-> 1..3, temp |-> 1..2, proj |-> 1..2, nosym |-> {1}, fcsymm |-> {1}, md |-> {1},
             qha |-> {1}, res |-> 1..2, lim |-> 1..2, last |-> 1..2, win |-> 1..3, mm |-> {1}, norm |-> {1}, ref |-> {1}, silent |-> {1}, order |-> {1}, nac |-> {1}, vcf |-> {1} ]      \* vcf: a file of projected velocities instead of the trajectory
OptNames == DOMAIN OptVals
NoOptions == [o \in OptNames |-> 0]

\* outputs in the order of the script
SavedFirst == <<"svc", "vq", "vc", "sv">>
After == <<"sfc", "bands", "sd", "sw", "sp", "pd", "pw", "pp", "pad", "sad", "sdata", "smesh", "pa", "adp", "thm", "thmf", "part", "avg">>
OutNames == {SavedFirst[i] : i \in DOMAIN SavedFirst} \cup {After[i] : i \in DOMAIN After}
OutVals == [o \in OutNames |-> IF o \in {"vc", "pad", "sad", "sdata"} THEN {1, 2} ELSE {1}]
NeedPositions == {"pad", "sad", "adp", "avg", "disp"}
Analysed == {"sfc", "bands", "sdata", "smesh", "thm", "thmf", "rbands", "fat", "lws", "fvl"}     \* need the commensurate wave vectors
OfProjection == {"svc", "vq", "vc", "sw", "sp", "pw", "pp", "pa"}        \* that projected velocities are enough for
NoOutputs == [o \in OutNames |-> 0]

\* settings in force
Start == [ q |-> 0, alg |-> 2, mem |-> 0, fit |-> 1, temp |-> 0, proj |-> 0, sym |-> TRUE, fcsym |-> FALSE, md |-> FALSE, qha |-> 0, res |-> 0, rng |-> <<>>,
           bins |-> 0, scale |-> 0, nac |-> 0, win |-> 0, last |-> 0, norm |-> 0, ref |-> 0, rfc |-> FALSE ]      \* rfc: renormalized force constants are there to be shown
Pick(v, d) == IF v = 0 THEN d ELSE v
ResOf(s) == IF s.res = 0 THEN <<>> ELSE <<<<"res", s.res>>>>
WithLimits(s, v) == [s EXCEPT !.rfc = FALSE, !.rng = ResOf(s) \o <<<<"lim", v>>>>]
WithAuto(s) == [s EXCEPT !.rng = ResOf(s) \o <<<<"auto", 0>>>>]
WithRes(s, v) == [s EXCEPT !.rfc = FALSE, !.res = v, !.rng = Append(@, <<"res", v>>)]
Given(c) == LET s == [Start EXCEPT !.q = IF c.vcf = 1 THEN 1 ELSE c.q, !.nac = c.nac, !.alg = Pick(c.alg, 2), !.mem = c.mem, !.fit = Pick(c.fit, 1), !.temp = c.temp, !.proj = c.proj,
                                   !.sym = c.nosym = 0 /\ c.vcf = 0, !.fcsym = c.fcsymm = 1, !.md = c.md = 1, !.qha = c.qha, !.win = c.win, !.last = c.last, !.norm = c.norm, !.ref = c.ref]
            IN IF c.res = 0 THEN s ELSE WithRes(s, c.res)
Renormalized == {"sfc", "bands", "thm", "thmf", "rbands", "fat", "lws"}     \* calculate the force constants (extra data of the wave vectors also)
AfterOut(o, v, s) == IF o \in Analysed THEN [WithAuto(s) EXCEPT !.rfc = @ \/ o \in Renormalized \/ (o = "sdata" /\ v = 2)] ELSE s
Event(o, v, s) == [what |-> o, v |-> v, s |-> AfterOut(o, v, s)]

RECURSIVE Outputs(_, _, _, _)
Outputs(order, i, out, s) ==      \* <<events, settings>>
  IF i > Len(order) THEN <<<<>>, s>>
  ELSE LET o == order[i] IN
       IF out[o] = 0 THEN Outputs(order, i + 1, out, s)
       ELSE LET r == Outputs(order, i + 1, out, AfterOut(o, out[o], s)) IN <<<<Event(o, out[o], s)>> \o r[1], r[2]>>
Line(c, out) == LET a == Outputs(SavedFirst, 1, out, Given(c))
                    b == Outputs(After, 1, out, IF c.lim = 0 THEN a[2] ELSE WithLimits(a[2], c.lim))
                IN <<a[1] \o b[1], b[2]>>

\* menus: <<setting, values>>, and requests
MenuSets == [ q |-> 0..4, alg |-> 1..4, mem |-> 1..2, fit |-> 1..3, res |-> 1..2, lim |-> 1..2, bins |-> 1..2, scale |-> 1..2, nac |-> 0..1 ]
MenuAsks == {"freq", "hbands", "dos", "thm", "boltz", "pd", "pw", "pp", "rbands", "fat", "lws", "fvl", "pa", "disp"}
Wrong == {"main", "harm", "pref", "alg", "nac"}               \* keys that mean nothing
Menu(k, v, s) == CASE k = "res" -> WithRes(s, v)
                   [] k = "lim" -> WithLimits(s, v)
                   [] k \in {"alg", "mem", "fit"} -> [s EXCEPT !.rfc = IF s[k] = v THEN @ ELSE FALSE, ![k] = v]
                   [] k \in {"q", "bins", "scale", "nac"} -> [s EXCEPT ![k] = v]
                   [] OTHER -> AfterOut(k, v, s)
=============================================================================
