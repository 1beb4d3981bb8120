----------------------------- MODULE SpectraGen -----------------------------
(* requests of spectra: generated for the real code *)
EXTENDS Projection, ProjCrystals, Json, TLC
CONSTANTS Deep
VARIABLES t, done
Kinds == {"real", "imag", "complex", "zero", "const", "spike", "alt"}
KS == {<<0, 1, 2, 3, 4>>, <<1>>, <<2, 0, 3>>}

DirectReq == {[task |-> "channels", alg |-> 0, n |-> n, inc |-> inc, meth |-> tr, order |-> 0, p |-> 0, ks |-> ks, kind |-> kind] :
   n \in {2, 5, 10, 11, 17}, inc \in {1, 2, 3, 10, 25}, tr \in {0, 1}, ks \in KS, kind \in Kinds}
MemReq == {[task |-> "channels", alg |-> 1, n |-> n, inc |-> 10, meth |-> 1, order |-> o, p |-> 0, ks |-> ks, kind |-> kind] :
   n \in {3, 4, 5, 8, 15, 20}, o \in 1..6, ks \in {<<0, 1, 2, 3, 4>>, <<2, 1>>}, kind \in Kinds}
FftReq == {[task |-> "channels", alg |-> a, n |-> n, inc |-> 10, meth |-> 1, order |-> 0, p |-> p, ks |-> <<0, 1>>, kind |-> kind] :
   a \in {2, 3}, n \in {2, 4, 5, 6, 8, 9, 10, 13, 14, 17, 20}, p \in {4, 8}, kind \in Kinds}
\* whole calculations: [c] crystal of ProjCrystals, [sc] supercell, [q] wave vector in quarters, [only] atom projected onto
Places == {x \in [c : 1..Len(Crystals), sc : {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>}, q : {<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>, <<1, 1, 0>>}] :
    /\ Len(Crystals[x.c].F4) * Cells(x.sc) <= 8
    /\ Exact(x.q, Crystals[x.c].PM2, Crystals[x.c].F4)
    /\ Commensurate(x.q, 4, Crystals[x.c].PM2, x.sc)}
Whole == \E task \in {"full", "partials", "wave", "phonon"}, a \in 0..3, n \in {6, 9}, inc \in {1, 4}, x \in Places, only \in 0..2, s \in {0, 1} :
    /\ task \in {"full", "partials"} => x.q = <<0, 0, 0>>
    /\ task = "partials" => only = 0
    /\ only <= Crystals[x.c].nt
    /\ a # 0 => inc = 4
    /\ ~Deep => (n + a + s + only) % 2 = 0
    /\ t = [task |-> task, alg |-> a, n |-> IF a = 1 THEN n + 6 ELSE n, inc |-> inc, meth |-> 1, order |-> 1, p |-> 4,
            ks |-> IF a > 1 THEN <<0, 1>> ELSE <<0, 1, 2, 3>>, c |-> x.c, sc |-> x.sc, q |-> x.q, only |-> only, silent |-> s]
Init == /\ done = FALSE
        /\ t = [task |-> "crystals", crystals |-> Crystals] \/ t \in DirectReq \/ t \in MemReq \/ t \in FftReq \/ Whole
Next == ~done /\ done' = TRUE /\ PrintT("BEH " \o ToJson(t)) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
