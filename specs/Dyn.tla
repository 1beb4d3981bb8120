-------------------------------- MODULE Dyn --------------------------------
(***************************************************************************)
(* Trajectories held in memory or in memory mapped files.                  *)
(* An object holds the last n steps of what it was made from; quantities   *)
(* derived from them are kept, each with the n it was computed from        *)
(* (ghost).  A memory mapped object keeps arrays in files of its own.      *)
(* Several objects live in one process.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Objs,         \* object names
          NSteps,       \* steps in the data
          Crops,        \* numbers of steps a crop may ask for
          Sources,      \* what an object may be made from
          MaxHist       \* length of generated behaviours (0: none kept)

\* what each source supplies, and whether reading it memory mapped makes a file
Supplies == [ cart   |-> {"traj"},         scaled |-> {"traj"},
              both   |-> {"traj", "vel", "energy"},  velonly |-> {"vel"},
              lmppos |-> {"traj"},         lmpvel |-> {"vel"},
              xdat   |-> {"traj"},         outcar |-> {"traj", "energy"},
              hdf5   |-> {"traj", "vel"} ]
FileSources == {"lmppos", "lmpvel", "xdat"}
NoMemmap == {"outcar", "hdf5"}            \* the option is accepted and has no effect on reading

Derived == {"vel", "rel", "vmass", "msd", "msda", "step"}
Plain   == {"time", "traj", "energy", "avg", "avg1", "avgu", "adp"}
Asks == Derived \cup Plain

\* derived quantities needed by a request
Uses == [ vel |-> {"rel", "step"}, rel |-> {}, vmass |-> {"vel"}, msd |-> {"rel"}, msda |-> {"rel"}, step |-> {},
          time |-> {}, traj |-> {}, energy |-> {}, avg |-> {"rel"}, avg1 |-> {"rel"}, avgu |-> {"rel"}, adp |-> {"msda"} ]
NeedsTraj == {"rel", "msd", "msda", "traj", "avg", "avg1", "avgu", "adp"}
InFiles == {"vel", "rel", "vmass"}         \* kept in a file by memory mapped objects

None == [none |-> TRUE]

VARIABLES obj, files, hist
vars == <<obj, files, hist>>

Init == obj = [o \in Objs |-> None] /\ files = {} /\ hist = <<>>

Note(e) == hist' = IF MaxHist > 0 THEN Append(hist, e) ELSE hist

RECURSIVE Closure(_, _)
Closure(r, sup) == IF r \in sup THEN {} ELSE {r} \cup UNION {Closure(u, sup) : u \in Uses[r]}

Create(o, src, mm) ==
  /\ obj[o] = None
  /\ obj' = [obj EXCEPT ![o] = [src |-> src, mm |-> mm, n |-> NSteps, have |-> [d \in {} |-> 0]]]
  /\ files' = IF mm /\ src \in FileSources THEN files \cup {<<o, "trajectory">>} ELSE files
  /\ Note([op |-> "create", o |-> o, k |-> src, v |-> IF mm THEN 1 ELSE 0])

Answers(x, r) == ~(r \in NeedsTraj /\ "traj" \notin Supplies[x.src])

Ask(o, r) ==
  /\ obj[o] # None
  /\ LET x == obj[o]
         need == {d \in Closure(r, Supplies[x.src]) : d \in Derived}
         new  == need \ DOMAIN x.have
     IN IF Answers(x, r)
        THEN /\ obj' = [obj EXCEPT ![o].have = [d \in DOMAIN x.have \cup new |-> IF d \in DOMAIN x.have THEN x.have[d] ELSE x.n]]
             /\ files' = IF x.mm THEN files \cup {<<o, d>> : d \in new \cap InFiles} ELSE files
        ELSE UNCHANGED <<obj, files>>
  /\ Note([op |-> "ask", o |-> o, k |-> r, v |-> 0])

Min(a, b) == IF a < b THEN a ELSE b

\* everything derived from the steps that go away is dropped; files stay until the object goes
Crop(o, n) ==
  /\ obj[o] # None
  /\ obj' = [obj EXCEPT ![o].n = Min(n, @), ![o].have = [d \in {} |-> 0]]
  /\ UNCHANGED files
  /\ Note([op |-> "crop", o |-> o, k |-> "crop", v |-> n])

Drop(o) ==
  /\ obj[o] # None
  /\ obj' = [obj EXCEPT ![o] = None]
  /\ files' = {f \in files : f[1] # o}
  /\ Note([op |-> "drop", o |-> o, k |-> "drop", v |-> 0])

Next == \E o \in Objs :
          \/ \E src \in Sources, mm \in BOOLEAN : Create(o, src, mm)
          \/ \E r \in Asks : Ask(o, r)
          \/ \E n \in Crops : Crop(o, n)
          \/ Drop(o)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Coherent == \A o \in Objs : obj[o] # None => \A d \in DOMAIN obj[o].have : obj[o].have[d] = obj[o].n
FilesOwned == \A f \in files : obj[f[1]] # None /\ obj[f[1]].mm
\* a step on one object touches neither the data nor the files of another
Isolated == [][\A o \in Objs : obj'[o] = obj[o] => {f \in files : f[1] = o} \subseteq files']_vars
=============================================================================
