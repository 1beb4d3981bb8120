--------------------------- MODULE ChannelsTrace ---------------------------
(* spectra recorded while channels change, against Channels; numbers times 10^6 / largest *)
EXTENDS Channels, Integers, Json, SequencesExt
Job == JsonDeserialize("traces.json")
Base == Job.base            \* [algorithm + 1][id]: spectrum of the signal alone, by one thread
Traces == Job.traces
VARIABLES i, j, bad
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Pow4(s) == 4 ^ s
\* the action an event stands for
Step(e) ==
  LET c == e.c  v == e.v IN
  /\ UNCHANGED loop
  /\ CASE e.op = "double" -> chans' = At(c, [chans[c] EXCEPT !.s = @ + 1]) /\ UNCHANGED threads
       [] e.op = "shrink" -> chans' = At(c, [chans[c] EXCEPT !.low = 1]) /\ UNCHANGED threads
       [] e.op = "dust" -> chans' = At(c, [chans[c] EXCEPT !.low = 2]) /\ UNCHANGED threads
       [] e.op = "turn" -> chans' = At(c, [chans[c] EXCEPT !.turn = (@ + v) % 4]) /\ UNCHANGED threads
       [] e.op = "replace" -> chans' = At(c, Chan(v)) /\ UNCHANGED threads
       [] e.op = "copy" -> chans' = Append(chans, chans[c]) /\ UNCHANGED threads
       [] e.op = "drop" -> chans' = SubSeq(chans, 1, c - 1) \o SubSeq(chans, c + 1, Len(chans)) /\ UNCHANGED threads
       [] e.op = "swap" -> chans' = [chans EXCEPT ![c] = chans[c + 1], ![c + 1] = chans[c]] /\ UNCHANGED threads
       [] e.op = "threads" -> threads' = v /\ UNCHANGED chans
       [] OTHER -> UNCHANGED <<chans, threads>>
Names == <<"direct", "mem", "numpy", "fftw">>
Judge(t, e) ==
  IF e.op # "ask" THEN {}
  ELSE IF e.died THEN {"refused:" \o Names[t.alg + 1]}
  ELSE IF ~(Len(e.obs) = Len(chans) /\ \A c \in 1..Len(chans) : Len(e.obs[c]) = Len(e.at)) THEN {"shape:" \o Names[t.alg + 1]}
  ELSE {"wrong:" \o Names[t.alg + 1] \o (IF chans[c].low = 2 THEN (IF \A y \in 1..Len(e.at) : e.obs[c][y] = 0 THEN ":dust:nothing" ELSE ":dust") ELSE IF chans[c].low # 0 THEN ":small" ELSE IF chans[c].turn # 0 THEN ":turned" ELSE IF chans[c].s # 0 THEN ":scaled" ELSE IF chans[c].id = 0 THEN ":zero" ELSE "")
        \o (IF threads # 1 THEN ":threads" ELSE "") :
        c \in {c \in 1..Len(chans) :
           LET x == chans[c] IN
           ~(\A y \in 1..Len(e.at) : IF x.id = 0 THEN e.obs[c][y] = 0
                                    ELSE Near(e.obs[c][y], Base[t.alg + 1][x.id][e.at[y]] * Pow4(x.s), 2 * Pow4(x.s)))}}
TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>>
TNext ==
  /\ UNCHANGED hist
  /\ IF i > Len(Traces) THEN FALSE
     ELSE LET t == Traces[i] IN
          IF j <= Len(t.events)
          THEN /\ Step(t.events[j])
               /\ bad' = bad \o SetToSeq({[trace |-> i, at |-> j, clause |-> s] : s \in Judge(t, t.events[j])})
               /\ j' = j + 1 /\ i' = i
          ELSE /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED bad /\ chans' = <<Chan(1), Chan(2)>> /\ threads' = 1 /\ UNCHANGED loop
               /\ i = Len(Traces) => JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
TSpec == TInit /\ [][TNext]_<<vars, i, j, bad>>
=============================================================================
