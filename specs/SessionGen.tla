----------------------------- MODULE SessionGen -----------------------------
(* random sessions: options, outputs, then menus *)
EXTENDS Session, Json
CONSTANTS Tour, NOpt, NOut, NUi, Cost        \* Cost: outputs that analyse all the wave vectors
VARIABLES base, cli, out, s, h, n, phase
vars == <<base, cli, out, s, h, n, phase>>
\* each option, with all the outputs
Source(o, k) == IF o = "order" THEN "pos" ELSE IF o \in {"win", "mm"} THEN (IF k = 1 THEN "pos" ELSE IF k = 2 THEN "xdat" ELSE "h5") ELSE "h5"
Each == /\ \E o \in OptNames : \E v \in OptVals[o] : \E w \in (IF o = "last" THEN {0, 1} ELSE IF o = "vcf" THEN {1} ELSE {0}) :      \* the last steps of a file of projected velocities too
             /\ base = [crystal |-> IF o = "proj" THEN "convmix" ELSE "tetra", src |-> Source(o, v), perm |-> v, ui |-> FALSE]
             /\ cli = [NoOptions EXCEPT !.mem = IF o = "mem" THEN v ELSE 1, ![o] = v, !.vcf = w, !.win = IF o = "mm" THEN 2 ELSE IF o = "win" THEN v ELSE 0]
             /\ out = [x \in OutNames |-> IF w = 1 /\ x \notin OfProjection THEN 0 ELSE IF x \in {"pad", "sad", "sdata", "vc"} /\ o # "proj" THEN 2 ELSE IF (o = "ref" /\ x = "thmf") \/ (o = "norm" /\ x = "thm") THEN 0 ELSE 1]
        /\ s = Start /\ h = <<>> /\ n = NOut /\ phase = "out"
Walk == /\ \E c \in Crystals, x \in Sources, p \in 0..5 : base = [crystal |-> c, src |-> x, perm |-> p, ui |-> NUi > 0]
        /\ cli = [NoOptions EXCEPT !.mem = 1] /\ out = NoOutputs /\ s = Start /\ h = <<>> /\ n = 0 /\ phase = "opt"
Init == IF Tour THEN Each ELSE Walk
Fits(o, v) == /\ (o = "mm" => cli.win \in {2, 3})                       \* memory mapped reading needs the last step
              /\ (o = "order" => base.src = "pos")
              /\ (o = "win" => cli.mm = 0)
              /\ (o \in {"norm", "ref", "vcf"} => NUi = 0)
              /\ (o = "vcf" => base.src = "h5" /\ \A x \in {"q", "proj", "win", "mm"} : cli[x] = 0)
              /\ (o \in {"q", "proj", "win", "mm"} => cli.vcf = 0)
Opt == /\ phase = "opt" /\ n < NOpt
       /\ \E o \in OptNames : \E v \in OptVals[o] : cli[o] \in {0, IF o = "mem" THEN 1 ELSE 0} /\ Fits(o, v) /\ cli' = [cli EXCEPT ![o] = v]
       /\ n' = n + 1 /\ UNCHANGED <<base, out, s, h, phase>>
Fill == /\ phase = "opt" /\ n = NOpt /\ phase' = "out" /\ n' = 0 /\ UNCHANGED <<base, cli, out, s, h>>
Out == /\ phase = "out" /\ n < NOut
       /\ \E o \in OutNames : \E v \in OutVals[o] :
            /\ out[o] = 0 /\ (o \in NeedPositions => base.src \in HasPositions)
            /\ (o \in Analysed => Cardinality({x \in Analysed \cap OutNames : out[x] # 0}) < Cost)
            /\ (cli.vcf = 1 => o \in OfProjection)
            /\ (o \in {"vc", "sv", "svc", "vq"} => cli.proj = 0 \/ v = 1)
            /\ out' = [out EXCEPT ![o] = v]
       /\ n' = n + 1 /\ UNCHANGED <<base, cli, s, h, phase>>
Run == /\ phase = "out" /\ n = NOut /\ n' = 0 /\ phase' = IF NUi > 0 THEN "ui" ELSE "end"
       /\ \E r \in {Line(cli, out)} : h' = r[1] /\ s' = r[2]
       /\ UNCHANGED <<base, cli, out>>
Do(k, v) == s' = Menu(k, v, s) /\ h' = Append(h, [what |-> k, v |-> v, s |-> s']) /\ UNCHANGED <<base, cli, out, phase>> /\ n' = n + 1
Ui == phase = "ui" /\ n < NUi /\
      \/ \E k \in DOMAIN MenuSets : \E v \in MenuSets[k] : (IF k = "lim" THEN TRUE ELSE s[k] # v) /\ Do(k, v)
      \/ \E k \in MenuAsks : \E v \in (IF k = "disp" THEN {1, 2} ELSE {0}) : (k \in NeedPositions => base.src \in HasPositions) /\ Do(k, v)
      \/ \E k \in Wrong : Do("bad", k)
Stop == phase = "ui" /\ n = NUi /\ phase' = "end" /\ UNCHANGED <<base, cli, out, s, h, n>>
End == phase = "end" /\ phase' = "over" /\ PrintT("BEH " \o ToJson([base |-> base, cli |-> cli, out |-> out, h |-> h])) /\ UNCHANGED <<base, cli, out, s, h, n>>
Next == Opt \/ Fill \/ Out \/ Run \/ Ui \/ Stop \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
