----------------------------- MODULE SessionTrace -----------------------------
(* what sessions gave, against what the library gives with the settings of the specification *)
EXTENDS Session, Json
Job == JsonDeserialize("traces.json")
Traces == Job.traces
Tol == 50                    \* 10^-6 of the largest value
VARIABLES i, bad
FileOf == [svc |-> "o_svc.h5", vq |-> "o_vq", vc |-> "o_vc", sv |-> "o_sv.h5", sfc |-> "o_fc", bands |-> "o_bands", sd |-> "o_sd", sw |-> "o_sw", sp |-> "o_sp", sad |-> "o_sad",
           sdata |-> "quasiparticles_data.yaml", smesh |-> "mesh_data.yaml", part |-> "o_part"]
Set(x) == {x[k] : k \in DOMAIN x}
Good(x) == 0 <= x /\ x <= Tol
Events(t) == Line(t.cli, t.out)[1]
Judge(t) ==
  LET e == t.events
      want == Events(t)
      stop == {k \in DOMAIN e : e[k].refused}                 \* the library cannot do it: the session may end there
      upto == IF stop = {} THEN Len(e) ELSE (CHOOSE k \in stop : \A m \in stop : k <= m) - 1
      wrong == {k \in 1..upto : ~Good(e[k].d)}
      head == {k \in 1..upto : ~Good(e[k].head)}
      First(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
      ok == [ended |-> stop # {} \/ (~t.died /\ Len(e) = Len(want) + t.menus),
             outputs |-> \A k \in 1..upto : k <= Len(want) => e[k].what = want[k].what,
             files |-> stop # {} \/ Set(t.files) = {FileOf[o] : o \in {o \in DOMAIN FileOf : t.out[o] # 0}},
             value |-> wrong = {}, shown |-> head = {}]
  IN {<<c, IF c = "value" THEN First(wrong) ELSE IF c = "shown" THEN First(head) ELSE 0>> : c \in {c \in DOMAIN ok : ~ok[c]}}
TInit == i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Traces) /\ i' = i + 1
         /\ bad' = bad \o (LET s == Judge(Traces[i])
                               f[x \in SUBSET s] == IF x = {} THEN <<>> ELSE LET e == CHOOSE e \in x : TRUE IN <<[trace |-> i, at |-> e[2], clause |-> e[1]]>> \o f[x \ {e}]
                           IN f[s])
         /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad', traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<i, bad>>
=============================================================================
