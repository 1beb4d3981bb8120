------------------------------ MODULE DynTrace ------------------------------
(***************************************************************************)
(* Recorded sessions with trajectory objects against Dyn.  What an object  *)
(* with n steps must answer is computed here, in exact integer arithmetic, *)
(* from the raw data of the crystal (positions in 1/16 Angstrom).          *)
(* Observed numbers come multiplied by 1000.                               *)
(***************************************************************************)
EXTENDS Dyn, Lattice, Json, SequencesExt, FiniteSetsExt

Job == JsonDeserialize("traces.json")
Cr == Job.crystals
Traces == Job.traces
S == 1000

VARIABLES i, j, bad
tvars == <<i, j, bad>>

NA(c) == Len(c.pos)                         \* atoms in the MD cell
First(c, n) == Len(c.raw) - n + 1           \* first step kept

\* displacement of atom a in step t
Disp(c) == TLCEval([t \in 1..Len(c.raw) |-> TLCEval([a \in 1..NA(c) |-> TLCEval(Reduce(Minus(c.raw[t][a], c.pos[a]), c.H))])])
DispOf == TLCEval([x \in 1..Len(Cr) |-> Disp(Cr[x])])

SumT(c, D, n, a, k) == FoldFunction(+, 0, [t \in First(c, n)..Len(c.raw) |-> D[t][a][k]])
SumTT(c, D, n, a, k, l) == FoldFunction(+, 0, [t \in First(c, n)..Len(c.raw) |-> D[t][a][k] * D[t][a][l]])
OfType(c, ty) == {a \in 1..NA(c) : c.type[a] = ty}

\* |obs/S - num/den| <= tol/S
Eq(obs, num, den, tol) == Abs(obs * den - num * S) <= tol * den + den

\* numerator of the mean displacement matrix of a type, over count * n * n
MsdNum(c, D, n, ty, k, l, central) ==
  FoldFunction(+, 0, [a \in OfType(c, ty) |->
      n * SumTT(c, D, n, a, k, l) - (IF central THEN SumT(c, D, n, a, k) * SumT(c, D, n, a, l) ELSE 0)])

MsdOK(c, D, n, v, central) ==
  /\ Len(v) = c.ntypes
  /\ \A ty \in 1..c.ntypes : \A k, l \in K :
        Eq(v[ty][k][l], MsdNum(c, D, n, ty, k, l, central), Cardinality(OfType(c, ty)) * n * n, 1)

\* sum of the time steps kept, in 1/100 ps
Span(c, n, src) == LET tm == c.times[src] IN tm[Len(tm)] - tm[First(c, n)]

\* derived velocity: finite differences of the displacements
Grad(c, D, n, t, a, k) ==
  IF t = First(c, n) THEN D[t + 1][a][k] - D[t][a][k]
  ELSE IF t = Len(c.raw) THEN D[t][a][k] - D[t - 1][a][k]
  ELSE D[t + 1][a][k] - D[t - 1][a][k]
GradDen(c, n, t) == IF t = First(c, n) \/ t = Len(c.raw) THEN 1 ELSE 2

VelOK(c, D, n, src, v, mass) ==
  /\ Len(v) = n
  /\ \A t \in First(c, n)..Len(c.raw) :
       LET row == v[t - First(c, n) + 1] IN
       /\ Len(row) = NA(c)
       /\ \A a \in 1..NA(c) : \A k \in K :
            LET m == IF mass THEN c.sqrtm[a] ELSE 1 IN
            IF "vel" \in Supplies[src]
            THEN Abs(row[a][k] - m * c.vel[t][a][k] * S) <= 2
            ELSE LET den == GradDen(c, n, t) * Span(c, n, src)
                 IN Abs(row[a][k] * den - m * Grad(c, D, n, t, a, k) * 100 * (n - 1) * S) <= 3 * den

Small == {<<x, y, z>> : x, y, z \in -2..2}
\* obs = (num / den) + a lattice vector of H, folded into the cell
FoldedOK(obs, num, den, H) ==
  /\ \E m \in Small : \A k \in K : Abs((obs[k] - S * VM(m, H)[k]) * den - num[k] * S) <= 3 * den
  /\ \A k \in K : LET f == FracNum([q \in K |-> Round(obs[q], S)], H)[k] * (IF Det(H) < 0 THEN -1 ELSE 1)
                      one == Abs(Det(H))
                  IN f >= -(one \div 20) /\ f <= one + (one \div 20)

AvgOK(c, D, n, v) ==
  /\ Len(v) = NA(c)
  /\ \A a \in 1..NA(c) : FoldedOK(v[a], [k \in K |-> n * c.pos[a][k] + SumT(c, D, n, a, k)], n, c.H)

\* average over one step taken at random
Avg1OK(c, D, n, v) ==
  /\ Len(v) = NA(c)
  /\ \E t \in First(c, n)..Len(c.raw) :
        \A a \in 1..NA(c) : FoldedOK(v[a], [k \in K |-> c.pos[a][k] + D[t][a][k]], 1, c.H)

AvgUOK(c, D, n, v) ==
  /\ Len(v) = Len(c.upos)
  /\ \A u \in 1..Len(c.upos) :
       LET at == OfType(c, c.utype[u])
           den == n * Cardinality(at)
           sm == [k \in K |-> FoldFunction(+, 0, [a \in at |-> SumT(c, D, n, a, k)])]
       IN FoldedOK(v[u], [k \in K |-> den * c.upos[u][k] + sm[k]], den, c.Hu)

\* thermal displacement parameters: cartesian as MsdOK; crystal and uvrs frames related to it exactly
\* (Ha: the unit cell in Angstrom; norms of the reciprocal vectors times Det are integers)
AdpOK(c, D, n, v) ==
  LET A == Adj(c.Ha)  d == Det(c.Ha)
      lhs(ty, k, l) == FoldFunction(+, 0, [pq \in K \X K |-> A[pq[1]][k] * A[pq[2]][l] * v.cart4[ty][pq[1]][pq[2]]])
      tol(k, l) == FoldFunction(+, 0, [pq \in K \X K |-> Abs(A[pq[1]][k] * A[pq[2]][l])])
  IN /\ MsdOK(c, D, n, v.cart, TRUE)
     /\ Len(v.crys4) = c.ntypes /\ Len(v.uvrs4) = c.ntypes /\ Len(v.cart4) = c.ntypes
     /\ \A ty \in 1..c.ntypes : \A k, l \in K :
          /\ Abs(d * d * v.crys4[ty][k][l] - lhs(ty, k, l)) <= d * d + tol(k, l)
          /\ Abs(c.norm[k] * c.norm[l] * v.uvrs4[ty][k][l] - lhs(ty, k, l)) <= c.norm[k] * c.norm[l] + tol(k, l)

TrajOK(c, n, v) ==     \* what was put in, up to lattice vectors (files may be given wrapped)
  /\ Len(v) = n
  /\ \A t \in First(c, n)..Len(c.raw) : \A a \in 1..NA(c) : \A k \in K :
        Abs(v[t - First(c, n) + 1][a][k] - S * c.raw[t][a][k]) <= 2

TimeOK(c, n, src, v) ==          \* one time per step, with the spacing of the data
  /\ Len(v) = n
  /\ \A t \in 2..n : Abs((v[t] - v[1]) - 10 * (c.times[src][First(c, n) + t - 1] - c.times[src][First(c, n)])) <= 1

Value(e, x) ==
  LET c == Cr[e.c]  D == DispOf[e.c]  n == x.n  v == e.val IN
  CASE e.k = "time"  -> TimeOK(c, n, x.src, v)
    [] e.k = "step"  -> Abs(v * (n - 1) - Span(c, n, x.src) * 10) <= n
    [] e.k = "traj"  -> TrajOK(c, n, v)
    [] e.k = "energy" -> IF "energy" \in Supplies[x.src]
                         THEN Len(v) = n /\ \A t \in 1..n : Abs(v[t] - S * c.energy[First(c, n) + t - 1]) <= 2
                         ELSE v = <<>>
    [] e.k = "rel"   -> /\ Len(v) = n
                        /\ \A t \in First(c, n)..Len(c.raw) : \A a \in 1..NA(c) : \A k \in K :
                              Abs(v[t - First(c, n) + 1][a][k] - S * D[t][a][k]) <= 2
    [] e.k = "vel"   -> VelOK(c, D, n, x.src, v, FALSE)
    [] e.k = "vmass" -> VelOK(c, D, n, x.src, v, TRUE)
    [] e.k = "msd"   -> MsdOK(c, D, n, v, FALSE)
    [] e.k = "msda"  -> MsdOK(c, D, n, v, TRUE)
    [] e.k = "adp"   -> AdpOK(c, D, n, v)
    [] e.k = "avg"   -> AvgOK(c, D, n, v)
    [] e.k = "avg1"  -> Avg1OK(c, D, n, v)
    [] e.k = "avgu"  -> AvgUOK(c, D, n, v)

Mode(x) == x.src \o (IF x.mm THEN ":memmap" ELSE ":memory")
AnyMM == \E o \in Objs : obj'[o] # None /\ obj'[o].mm

\* clauses failed by event e; x: the object before the event (or after, for create)
Clauses(e, x) ==
  LET ans == IF e.op = "ask" /\ e.died THEN {"refused:" \o e.k \o ":" \o Mode(x)}
             ELSE IF e.op # "ask" THEN IF e.died THEN {"failed:" \o e.op \o ":" \o Mode(x)} ELSE {}
             ELSE IF Value(e, x) THEN {} ELSE {"wrong:" \o e.k \o ":" \o Mode(x)}
  IN ans

FileClauses(e) ==
  (IF e.nfiles > 0 /\ ~AnyMM THEN {"files left behind after " \o e.op} ELSE {})
  \cup (IF e.stray > 0 THEN {"files outside the temporal directory after " \o e.op} ELSE {})

Put(x, s) == [trace |-> i, at |-> j, clause |-> s]

TInit == Init /\ i = 1 /\ j = 1 /\ bad = <<>>

Event ==
  /\ i <= Len(Traces) /\ j <= Len(Traces[i].events)
  /\ LET e == Traces[i].events[j] IN
     /\ CASE e.op = "create" -> Create(e.o, e.k, e.v = 1)
          [] e.op = "crop"   -> Crop(e.o, e.v)
          [] e.op = "drop"   -> Drop(e.o)
          [] e.op = "ask"    -> Ask(e.o, e.k)
     /\ LET x == IF e.op = "create" THEN obj'[e.o] ELSE obj[e.o]
            expectRefusal == e.op = "ask" /\ ~Answers(x, e.k)
            cl == (IF expectRefusal THEN (IF e.died THEN {} ELSE {"answered:" \o e.k \o ":" \o Mode(x)})
                   ELSE Clauses(e, x)) \cup FileClauses(e)
        IN bad' = bad \o SetToSeq({Put(0, s) : s \in cl})
  /\ j' = j + 1 /\ UNCHANGED i

NextTrace ==
  /\ i <= Len(Traces) /\ j > Len(Traces[i].events)
  /\ bad' = bad \o (IF Traces[i].died THEN <<Put(0, "session died")>> ELSE <<>>)
                \o (IF Traces[i].left > 0 THEN <<Put(0, "files left behind at the end")>> ELSE <<>>)
  /\ i' = i + 1 /\ j' = 1 /\ obj' = [o \in Objs |-> None] /\ files' = {} /\ UNCHANGED hist

Done ==
  /\ i = Len(Traces) + 1 /\ j = 1
  /\ JsonSerialize("verdict.json", [bad |-> bad, traces |-> Len(Traces)])
  /\ j' = 2 /\ UNCHANGED <<i, bad, vars>>

TSpec == TInit /\ [][Event \/ NextTrace \/ Done]_<<tvars, vars>>
=============================================================================
