-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Trajectories kept in HDF5 files: saved, read in windows, joined, saved  *)
(* again.  Data are sequences of labels of the steps they come from:       *)
(* positions by step, velocities by <<source, index>> (source 0: given     *)
(* with the steps; n: derived from the last n positions of the run).       *)
(* A file has a part or not; parts of a file always cover the same steps.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N,           \* steps of the run
          Names,       \* files
          MaxOps
No == <<>>             \* part that is not there (a part that is there has at least two steps)
NoFile == [kind |-> "none", traj |-> No, vel |-> No, vc |-> No, q |-> 0, t0 |-> 0]
VARIABLES obj, file, hist, refused
vars == <<obj, file, hist, refused>>
view == <<obj, file, Len(hist)>>

Count(x) == IF x.vc # No THEN Len(x.vc) ELSE IF x.vel # No THEN Len(x.vel) ELSE Len(x.traj)
Cut(s, a, b) == IF s = No THEN No ELSE SubSeq(s, a, IF b = 0 \/ b > Len(s) THEN Len(s) ELSE b)
Last(s, n) == IF s = No \/ n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Run == [k \in 1..N |-> k]
Given == [k \in 1..N |-> <<0, k>>]
\* velocities of an object: derived from its positions when none were given
Vel(x) == IF x.vel # No THEN x.vel ELSE [k \in 1..Len(x.traj) |-> <<Len(x.traj), k>>]

Made(src) == [kind |-> "data", traj |-> IF src = "vel" THEN No ELSE Run, vel |-> IF src = "traj" THEN No ELSE Given, vc |-> No, q |-> 0, t0 |-> 0]
Cropped(x, n) == LET y == [x EXCEPT !.traj = Last(@, n), !.vel = Last(@, n), !.vc = Last(@, n)] IN [y EXCEPT !.t0 = @ + Count(x) - Count(y)]
Saved(x, vo) == [x EXCEPT !.vel = Vel(x), !.traj = IF vo THEN No ELSE @]
SavedVc(x, q) == [kind |-> "vc", traj |-> No, vel |-> No, vc |-> Vel(x), q |-> q, t0 |-> x.t0]
Window(f, a, b, vo) == [f EXCEPT !.traj = IF vo THEN No ELSE Cut(@, a, b), !.vel = Cut(@, a, b), !.vc = Cut(@, a, b), !.t0 = @ + a - 1]
After(s, first) == Cut(s, first + 1, 0)
\* joined: what the first has; the second must have it too
CanJoin(f, g, vo) == /\ f.kind = g.kind /\ f.q = g.q /\ (vo => f.kind = "data")
                     /\ f.traj # No /\ ~vo => g.traj # No
Joined(f, g, first, vo) ==
  LET T == IF vo \/ f.traj = No THEN No ELSE After(f.traj, first) \o After(g.traj, first)
      P(x, y) == IF x = No THEN No ELSE After(x, first) \o After(y, first)
  IN [kind |-> f.kind, traj |-> T, vel |-> P(f.vel, g.vel), vc |-> P(f.vc, g.vc), q |-> f.q, t0 |-> f.t0 + first]

Ev == [op |-> "", src |-> "", f |-> "", g |-> "", h |-> "", a |-> 1, b |-> 0, n |-> 0, vo |-> FALSE, mm |-> FALSE, q |-> 0]
\* what an operation does with object x and files fs
Effect(x, fs, e) ==
  LET is(o, w, r) == [obj |-> o, file |-> w, refused |-> r]
      put(n, y) == [fs EXCEPT ![n] = y]
  IN CASE e.op = "new" -> is(Made(e.src), fs, FALSE)
       [] e.op = "crop" -> is(Cropped(x, e.n), fs, FALSE)
       \* there must be positions to save them
       [] e.op = "save" -> IF ~e.vo /\ x.traj = No THEN is(x, fs, TRUE) ELSE is(x, put(e.f, Saved(x, e.vo)), FALSE)
       [] e.op = "savevc" -> is(x, put(e.f, IF x.kind = "vc" THEN x ELSE SavedVc(x, e.q)), FALSE)
       [] e.op = "load" -> is(Window(fs[e.f], e.a, e.b, e.vo), fs, FALSE)
       \* command line: read a window of f, keep the last n steps (0: all), save to h
       [] e.op = "convert" -> LET w == Window(fs[e.f], e.a, e.b, e.vo)  y == IF e.n = 0 THEN w ELSE Cropped(w, e.n) IN
                              IF y.kind = "vc" THEN is(x, put(e.h, y), FALSE)
                              ELSE IF e.q # 0 THEN is(x, put(e.h, SavedVc(y, e.q)), FALSE)
                              ELSE IF ~e.vo /\ y.traj = No THEN is(x, fs, TRUE)
                              ELSE is(x, put(e.h, Saved(y, e.vo)), FALSE)
       [] e.op = "join" -> IF CanJoin(fs[e.f], fs[e.g], e.vo) THEN is(x, put(e.h, Joined(fs[e.f], fs[e.g], e.a, e.vo)), FALSE)
                           ELSE is(x, fs, TRUE)
Do(e) == LET r == Effect(obj, file, e) IN
         obj' = r.obj /\ file' = r.file /\ refused' = r.refused /\ hist' = Append(hist, e)
Init == obj = NoFile /\ file = [f \in Names |-> NoFile] /\ hist = <<>> /\ refused = FALSE

New == \E src \in {"both", "vel", "traj"}, mm \in BOOLEAN : Do([Ev EXCEPT !.op = "new", !.src = src, !.mm = mm])
Crop == \E n \in {3, 5, 9} : obj.kind # "none" /\ Do([Ev EXCEPT !.op = "crop", !.n = n])
Save == \E f \in Names, vo \in BOOLEAN : obj.kind = "data" /\ Do([Ev EXCEPT !.op = "save", !.f = f, !.vo = vo])
SaveVc == \E f \in Names, q \in {1, 2} :
         /\ obj.kind # "none" /\ (obj.kind = "vc" => q = obj.q)
         /\ Do([Ev EXCEPT !.op = "savevc", !.f = f, !.q = q])
GoodWindow(f, a, b) == Count(file[f]) >= a + 1 /\ (b = 0 \/ b >= a + 1)
Load == \E f \in Names, a \in {1, 2, 4}, b \in {0, 3, 6}, vo \in BOOLEAN, mm \in BOOLEAN :
         /\ file[f].kind # "none" /\ GoodWindow(f, a, b) /\ (mm => file[f].kind = "data")
         /\ Do([Ev EXCEPT !.op = "load", !.f = f, !.a = a, !.b = b, !.vo = vo, !.mm = mm])
Convert == \E f, h \in Names, a \in {1, 3}, b \in {0, 6}, n \in {0, 3}, vo \in BOOLEAN, q \in {0, 1} :
         /\ file[f].kind # "none" /\ GoodWindow(f, a, b) /\ (file[f].kind = "vc" => q = file[f].q)
         /\ Do([Ev EXCEPT !.op = "convert", !.f = f, !.h = h, !.a = a, !.b = b, !.n = n, !.vo = vo, !.q = q])
Join == \E f, g, h \in Names, first \in {0, 1, 2}, vo \in BOOLEAN :
         /\ file[f].kind # "none" /\ file[g].kind # "none"
         /\ file[f].kind = file[g].kind /\ file[f].q = file[g].q /\ (vo => file[f].kind = "data")
         /\ Count(file[f]) > first /\ Count(file[g]) > first /\ Count(file[f]) + Count(file[g]) >= 2 * first + 2
         /\ Count(file[f]) + Count(file[g]) < 3 * N
         /\ Do([Ev EXCEPT !.op = "join", !.f = f, !.g = g, !.h = h, !.a = first, !.vo = vo])
Next == Len(hist) < MaxOps /\ (New \/ Crop \/ Save \/ SaveVc \/ Load \/ Convert \/ Join)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Whole(x) == x.kind # "none" =>
  /\ Count(x) >= 2
  /\ x.traj # No /\ x.vel # No => Len(x.traj) = Len(x.vel)
  /\ (x.kind = "vc") = (x.vc # No) /\ (x.kind = "vc" => x.traj = No /\ x.vel = No /\ x.q # 0)
\* steps and velocities stay together: a given velocity is that of its own step
Together(x) == x.kind = "data" /\ x.traj # No /\ x.vel # No =>
  \A k \in 1..Len(x.traj) : x.vel[k][1] = 0 => x.vel[k][2] = x.traj[k]
Sound == Whole(obj) /\ Together(obj) /\ \A f \in Names : Whole(file[f]) /\ Together(file[f])
\* reading and changing objects leaves files alone; writing leaves other files alone
FilesKept == [][LET e == hist'[Len(hist')] IN
                \A f \in Names : file'[f] # file[f] => f \in {e.f, e.h} /\ e.op \in {"save", "savevc", "convert", "join"}]_vars
\* saving and reading everything back gives the object again
RoundTrip == obj.kind = "data" /\ obj.traj # No => LET y == Window(Saved(obj, FALSE), 1, 0, FALSE) IN y.traj = obj.traj /\ y.vel = Vel(obj) /\ y.t0 = obj.t0
\* windows of windows, and joining what was cut
Compose == obj.kind = "data" => LET x == Saved(obj, FALSE)  c == Count(obj) IN
  /\ c >= 4 => Window(Window(x, 2, 0, FALSE), 2, 0, FALSE) = Window(x, 3, 0, FALSE)
  /\ c >= 4 => Joined(Window(x, 1, 2, FALSE), Window(x, 3, 0, FALSE), 0, FALSE) = x
=============================================================================
