-------------------------------- MODULE Gauss --------------------------------
(* Gaussian integers <<re, im>> and powers of i: exact phases at quarters of a period *)
EXTENDS Integers, Sequences
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CScale(s, a) == <<s * a[1], s * a[2]>>
CNorm(a) == a[1] * a[1] + a[2] * a[2]
IPow(p) == CASE p % 4 = 0 -> <<1, 0>> [] p % 4 = 1 -> <<0, 1>> [] p % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
CZero == <<0, 0>>
RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN CZero ELSE CAdd(CSumTo(f, n - 1), f[n])
CSum(f) == CSumTo(f, Len(f))
=============================================================================
