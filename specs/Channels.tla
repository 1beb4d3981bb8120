------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* Spectra of several signals (channels) calculated together, in parallel  *)
(* over the frequencies.  Part 1: a list of channels is changed step by    *)
(* step; every spectrum asked is that of its own channel, times the square *)
(* of its amplitude, whatever the place, the other channels, the number of *)
(* threads and the other frequencies.  Part 2: the parallel loop.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ids,           \* signals there are
          MaxChannels, MaxOps,
          Threads, NFreq, Shared    \* parallel loop; Shared: its frequency variable is shared (must fail)

VARIABLES chans,         \* <<[id, s, turn]>>: signal id times 2^s times i^turn (id 0: zeros)
          threads, hist,
          pc, mine, w, out, next \* parallel loop: thread |-> state, frequency it works on, its frequency variable; results
vars == <<chans, threads, hist, pc, mine, w, out, next>>
loop == <<pc, mine, w, out, next>>
Chan(id) == [id |-> id, s |-> 0, turn |-> 0, low |-> 0]      \* low: much smaller (2^-20), its spectrum read in units as much smaller
Init == /\ chans = <<Chan(1), Chan(2)>> /\ threads = 1 /\ hist = <<>>
        /\ pc = [t \in 1..Threads |-> "idle"] /\ mine = [t \in 1..Threads |-> 0] /\ w = [t \in 1..Threads |-> 0]
        /\ out = [f \in 1..NFreq |-> 0] /\ next = 1

Do(op, c, v) == hist' = Append(hist, [op |-> op, c |-> c, v |-> v])
At(c, x) == [chans EXCEPT ![c] = x]
Ops ==
  /\ Len(hist) < MaxOps /\ UNCHANGED loop
  /\ \/ \E c \in 1..Len(chans) :
          \/ chans[c].s < 3 /\ chans' = At(c, [chans[c] EXCEPT !.s = @ + 1]) /\ Do("double", c, 0) /\ UNCHANGED threads
          \/ chans[c].low = 0 /\ chans' = At(c, [chans[c] EXCEPT !.low = 1]) /\ Do("shrink", c, 0) /\ UNCHANGED threads
          \/ \E k \in {1, 2} : chans' = At(c, [chans[c] EXCEPT !.turn = (@ + k) % 4]) /\ Do("turn", c, k) /\ UNCHANGED threads
          \/ \E i \in Ids \cup {0} : chans[c].id # i /\ chans' = At(c, Chan(i)) /\ Do("replace", c, i) /\ UNCHANGED threads
          \/ Len(chans) < MaxChannels /\ chans' = Append(chans, chans[c]) /\ Do("copy", c, 0) /\ UNCHANGED threads
          \/ Len(chans) > 1 /\ chans' = SubSeq(chans, 1, c - 1) \o SubSeq(chans, c + 1, Len(chans)) /\ Do("drop", c, 0) /\ UNCHANGED threads
          \/ c < Len(chans) /\ chans' = [chans EXCEPT ![c] = chans[c + 1], ![c + 1] = chans[c]] /\ Do("swap", c, 0) /\ UNCHANGED threads
     \/ \E n \in {1, 2, 5, 8} : n # threads /\ threads' = n /\ Do("threads", 0, n) /\ UNCHANGED chans
     \/ \E n \in {1, 2, 3} : Do("ask", 0, n) /\ UNCHANGED <<chans, threads>>     \* all frequencies, the first half, every second

\* ------------------------------------------------------------- parallel loop
Set(t) == /\ pc[t] = "idle" /\ next <= NFreq
          /\ mine' = [mine EXCEPT ![t] = next] /\ next' = next + 1
          /\ w' = IF Shared THEN [u \in 1..Threads |-> next] ELSE [w EXCEPT ![t] = next]
          /\ pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED <<chans, threads, hist, out>>
Evaluate(t) == /\ pc[t] = "work" /\ out' = [out EXCEPT ![mine[t]] = w[t]]
               /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<chans, threads, hist, mine, w, next>>
Loop == \E t \in 1..Threads : Set(t) \/ Evaluate(t)
LoopSpec == Init /\ [][Loop]_vars
Finished == next > NFreq /\ \A t \in 1..Threads : pc[t] = "idle"
\* any interleaving of the threads gives the result of the loop run by one
SameAsOne == Finished => \A f \in 1..NFreq : out[f] = f

OpsSpec == Init /\ [][Ops]_vars
\* spectrum of a channel, in terms of those of the signals alone: signal and the power of four
Expected(c) == [id |-> c.id, low |-> c.low, factor |-> IF c.id = 0 THEN 0 ELSE 4 ^ c.s]
\* an operation changes the spectrum of one channel at most (swaps: moves it)
Local == [][LET n == hist'[Len(hist')] IN
            n.op \in {"double", "shrink", "turn", "replace"} => \A c \in 1..Len(chans) : c # n.c => chans'[c] = chans[c]]_<<chans, hist>>
\* turning a signal changes no spectrum; threads and asking change nothing
Neutral == [][LET n == hist'[Len(hist')] IN
            n.op \in {"turn", "threads", "ask"} => /\ Len(chans') = Len(chans)
               /\ \A c \in 1..Len(chans) : Expected(chans'[c]) = Expected(chans[c])]_<<chans, hist>>
=============================================================================
