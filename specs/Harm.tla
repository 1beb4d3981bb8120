-------------------------------- MODULE Harm --------------------------------
(***************************************************************************)
(* A generated trajectory: phonons added one by one to the motion of the   *)
(* atoms.  Modelled on a lattice whose phases are powers of i, with one    *)
(* clock per frequency (a wave vector and its opposite share one), so that *)
(* averages over time are sums over the clocks.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS N1, N2                 \* cells along two directions: 1, 2 or 4
Sites == (0..N1 - 1) \X (0..N2 - 1)
Waves == Sites
Neg(q) == <<(N1 - q[1]) % N1, (N2 - q[2]) % N2>>
Turn(q, r) == ((4 \div N1) * q[1] * r[1] + (4 \div N2) * q[2] * r[2]) % 4
Re(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0       \* real part of i^k
Classes == {{q, Neg(q)} : q \in Waves}
ClassOf(q) == {q, Neg(q)}
Amplitude(q) == 1 + ((q[1] + q[2]) % 2)                                 \* any: they need not be equal
=============================================================================
