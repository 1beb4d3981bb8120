------------------------------ MODULE SessionMC ------------------------------
(***************************************************************************)
(* A session drives the calculation object (Quasi): each option or menu is *)
(* a change of its settings, each output some requests.  Checked: at the   *)
(* end of each step the settings of the object are those of the session,   *)
(* all that it keeps belongs to them (so every output is what a new        *)
(* calculation with these settings gives), and the line of commands, run   *)
(* step after step, ends as Line says.                                     *)
(***************************************************************************)
EXTENDS Session
CONSTANTS NOpt, NOut, NUi
VARIABLES t, queue, micro, s, kept, hist, line, n
vars == <<t, queue, micro, s, kept, hist, line, n>>
Q == INSTANCE Quasi WITH MaxDiff <- 12, MaxHist <- 0

Requests(o, v) ==
  CASE o \in {"svc", "vc"} -> <<"vc">> [] o = "vq" -> <<"vq">> [] o \in {"sd", "pd"} -> <<"psf">> [] o \in {"sw", "pw"} -> <<"psw">>
    [] o \in {"sp", "pp"} -> <<"psp">> [] o = "sfc" -> <<"rfc">> [] o = "bands" -> <<"hbands", "bands">> [] o = "sdata" -> IF v = 2 THEN <<"comm", "gv">> ELSE <<"comm">>
    [] o \in {"smesh", "fvl"} -> <<"mesh">> [] o = "pa" -> <<"psp", "freq">> [] o = "thm" -> <<"rfc", "thm", "thmr">> [] o = "thmf" -> <<"rfc", "thm", "thmr", "psf">>
    [] o = "part" -> <<"part">> [] o \in {"rbands", "fat", "lws"} -> <<"hbands", "bands">> [] o = "hbands" -> <<"hbands">> [] o = "boltz" -> <<"temp">>
    [] OTHER -> <<>>

\* the settings of the object that a session has
Limits(r) == {i \in DOMAIN r : r[i][1] # "res"}
LimOf(r) == IF Limits(r) = {} THEN 1 ELSE LET i == CHOOSE i \in Limits(r) : \A j \in Limits(r) : j <= i IN IF r[i][1] = "auto" THEN Q!Auto ELSE r[i][2] + 1
Object(x) == [Q!Init0 EXCEPT !.q = x.q, !.alg = x.alg - 1, !.lim = LimOf(x.rng), !.res = x.res + 1, !.mem = x.mem, !.fit = x.fit - 1, !.proj = x.proj, !.qha = x.qha, !.nac = x.nac, !.temp = x.temp, !.crop = x.last]
Changes(a, b) == LET K == {k \in Q!Keys : Object(a)[k] # Object(b)[k]}
                     f[S \in SUBSET K] == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<<<"set", k, Object(b)[k]>>>> \o f[S \ {k}]
                 IN f[K]
Asks(o, v) == LET r == Requests(o, v) IN [i \in DOMAIN r |-> <<"ask", r[i], 0>>]

OptPairs == {p \in OptNames \X (1..4) : p[2] \in OptVals[p[1]]}
OutPairs == {p \in OutNames \X (1..2) : p[2] \in OutVals[p[1]]}
Chosen(none, S) == [o \in DOMAIN none |-> IF \E p \in S : p[1] = o THEN (CHOOSE p \in S : p[1] = o)[2] ELSE none[o]]
Subsets(P, k) == UNION {{ {p[i] : i \in 1..j} : p \in [1..j -> P]} : j \in 0..k}

Steps(c, out) == LET f[o \in {<<1, i>> : i \in 1..Len(SavedFirst) + 1} \cup {<<2, i>> : i \in 1..Len(After) + 1}] ==
                       LET order == IF o[1] = 1 THEN SavedFirst ELSE After IN
                       IF o[2] > Len(order) THEN (IF o[1] = 2 THEN <<>> ELSE (IF c.lim = 0 THEN <<>> ELSE <<<<"lim", c.lim>>>>) \o f[<<2, 1>>])
                       ELSE (IF out[order[o[2]]] = 0 THEN <<>> ELSE <<<<order[o[2]], out[order[o[2]]]>>>>) \o f[<<o[1], o[2] + 1>>]
                 IN f[<<1, 1>>]
Init == /\ \E C \in Subsets(OptPairs, NOpt), O \in Subsets(OutPairs, NOut) :
             LET c == [Chosen(NoOptions, C) EXCEPT !.mem = 1] out == Chosen(NoOutputs, O)
             IN /\ queue = Steps(c, out) /\ line = Line(c, out)[2]
                /\ t = Given(c) /\ micro = Changes([Start EXCEPT !.mem = 1], Given(c))
        /\ s = Object([Start EXCEPT !.mem = 1]) /\ kept = [r \in Q!Kept |-> Q!None] /\ hist = <<>> /\ n = 0
Micro == /\ micro # <<>> /\ micro' = Tail(micro)
         /\ LET m == Head(micro) IN IF m[1] = "set" THEN Q!Set(m[2], m[3]) ELSE Q!Ask(m[2])
         /\ UNCHANGED <<t, queue, hist, line, n>>
Do(k, v) == /\ t' = Menu(k, v, t)
            /\ micro' = IF k \in DOMAIN MenuSets THEN Changes(t, Menu(k, v, t)) ELSE Asks(k, v)
            /\ UNCHANGED <<s, kept, hist>>
Queue == micro = <<>> /\ queue # <<>> /\ Do(Head(queue)[1], Head(queue)[2]) /\ queue' = Tail(queue) /\ UNCHANGED <<line, n>>
Menus == /\ micro = <<>> /\ queue = <<>> /\ n < NUi /\ n' = n + 1 /\ UNCHANGED <<queue, line>>
         /\ \/ \E k \in DOMAIN MenuSets : \E v \in MenuSets[k] : (IF k = "lim" THEN TRUE ELSE t[k] # v) /\ Do(k, v)
            \/ \E k \in MenuAsks : Do(k, 0)
Next == Micro \/ Queue \/ Menus
Spec == Init /\ [][Next]_vars

Idle == micro = <<>>
Agree == Idle => s = Object(t)                    \* the object has the settings of the session
Coherent == Q!Coherent                             \* and keeps only what they give
LineDone == Idle /\ queue = <<>> /\ n = 0 => t = line
\* an analysis kept was done on the range that a new one would set
KeptRange == Idle /\ kept["comm"] # Q!None => t = WithAuto(t)
\* the renormalized density of states can be shown
Shown == Idle => t.rfc = (kept["rfc"] # Q!None)
\* the limits are set once (the last ones), the resolution is the last one given
Range == \A i, j \in Limits(t.rng) : i = j
Resolution == LET r == {i \in DOMAIN t.rng : t.rng[i][1] = "res"} IN IF r = {} THEN t.res = 0 ELSE t.rng[CHOOSE i \in r : \A j \in r : j <= i][2] = t.res
=============================================================================
