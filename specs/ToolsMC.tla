------------------------------ MODULE ToolsMC ------------------------------
(***************************************************************************)
(* The tools of Tools.tla as machines that read step by step, checked for  *)
(* every order of the files.                                               *)
(***************************************************************************)
EXTENDS Tools
CONSTANT NMax
VARIABLES tool, in, pc, out
vars == <<tool, in, pc, out>>
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
F(p) == 10 + p * p                               \* frequencies of the wave vectors
Init ==
  \/ /\ tool = "rfc" /\ out = <<>> /\ pc = <<0, 1>>
     /\ \E N \in 1..NMax : \E o \in Perms(N), z \in {0, 1} :
          in = [N |-> N, file |-> [k \in 1..N |-> [w |-> Written(o[k] - 1, N, IF k = 1 THEN z ELSE 0), f |-> F(o[k] - 1)]]]
  \/ /\ tool = "qha" /\ out = <<>> /\ pc = "sort"
     /\ \E n \in 1..NMax : \E o \in Perms(n) : in = [v |-> [k \in 1..n |-> 20 + o[k]], e |-> [k \in 1..n |-> o[k] * o[k] - 5 * o[k]], fc |-> [k \in 1..n |-> 100 - 3 * o[k]]]
  \/ /\ tool = "fit" /\ out = <<>> /\ pc = 0
     /\ \E n \in 1..NMax, w \in 2..4 : in = [rows |-> [k \in 1..n |-> [c \in 1..w |-> k * 7 + c * c]], sets |-> [s \in 1..w - 1 |-> {s + 1, 2}]]
\* rfc_calc: wave vector pc[1] against record pc[2]
Look == /\ tool = "rfc" /\ pc[1] < in.N
        /\ IF pc[2] > Len(in.file) THEN pc' = <<in.N, 1>> /\ out' = "missing"
           ELSE IF Same(in.file[pc[2]].w, pc[1], in.N) THEN pc' = <<pc[1] + 1, 1>> /\ out' = Append(out, in.file[pc[2]].f)
           ELSE pc' = <<pc[1], pc[2] + 1>> /\ UNCHANGED out
        /\ UNCHANGED <<tool, in>>
\* qha_extract: every quantity sorted by volume, then the volume of least energy, then its force constants
Sorted(x, v) == [k \in DOMAIN v |-> x[CHOOSE l \in DOMAIN v : Cardinality({j \in DOMAIN v : v[j] < v[l]}) = k - 1]]
Sort == /\ tool = "qha" /\ pc = "sort" /\ pc' = "least" /\ UNCHANGED <<tool, out>>
        /\ in' = [v |-> Sorted(in.v, in.v), e |-> Sorted(in.e, in.v), fc |-> Sorted(in.fc, in.v)]
Least == /\ tool = "qha" /\ pc = "least" /\ pc' = "done" /\ UNCHANGED <<tool, in>>
         /\ LET k == CHOOSE k \in DOMAIN in.v : \A l \in DOMAIN in.v : in.e[k] < in.e[l] \/ (in.e[k] = in.e[l] /\ k <= l) IN out' = <<in.v[k], in.fc[Position(in.v[k], in.v)]>>
\* fitdata: rows one by one, from the first
Row == /\ tool = "fit" /\ pc < Len(in.rows) /\ pc' = pc + 1 /\ UNCHANGED <<tool, in>>
       /\ out' = Append(out, [s \in DOMAIN in.sets |-> SumCols(in.rows[pc + 1], in.sets[s])])
Next == Look \/ Sort \/ Least \/ Row
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == CASE tool = "rfc" -> pc[1] = in.N [] tool = "qha" -> pc = "done" [] OTHER -> pc = Len(in.rows)
\* ---- properties
Matched == tool = "rfc" /\ Done => out = [p \in 1..in.N |-> F(p - 1)] /\ Taken(in.file, in.N) = [p \in 0..in.N - 1 |-> F(p)]
Paired == tool = "qha" => \A k \in DOMAIN in.v : in.fc[k] = 100 - 3 * (in.v[k] - 20) /\ in.e[k] = (in.v[k] - 20) * (in.v[k] - 25)
Unordered == tool = "qha" /\ Done => LET n == Len(in.v) IN out = <<IF n = 1 THEN 21 ELSE 22, IF n = 1 THEN 97 ELSE 94>>
EveryRow == tool = "fit" => /\ Len(out) = pc
                            /\ \A k \in 1..pc, s \in DOMAIN in.sets : out[k][s] = (IF s = 1 THEN 1 ELSE 2) * k * 7 + 4 + (IF s = 1 THEN 0 ELSE (s + 1) * (s + 1))
Ends == <>Done
\* why tolerance is needed: with exact comparison some wave vector of some crystal is never found (checked to fail)
ExactEnough == tool = "rfc" => \A k \in DOMAIN in.file : \E p \in 0..in.N - 1 : Equal(in.file[k].w, p, in.N)
=============================================================================
