-------------------------------- MODULE Arith --------------------------------
(* Integer helpers; TLC's integers have 32 bits, so products are avoided.    *)
EXTENDS Integers

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sign(x) == IF x < 0 THEN -1 ELSE 1
Near(a, b, tol) == Abs(a - b) <= tol

\* a * n \div d for 0 <= a, 0 <= n, 0 < d without forming a * n (needs n + 2d < 2^31 and the result < 2^31)
RECURSIVE MD(_, _, _)
MD(a, n, d) ==           \* <<quotient, remainder>>
  IF a = 0 THEN <<0, 0>>
  ELSE LET h == MD(a \div 2, n, d)
           r == 2 * h[2] + (IF a % 2 = 1 THEN n ELSE 0)
       IN <<2 * h[1] + r \div d, r % d>>
MulDiv(a, n, d) == MD(a, n, d)[1]
SMulDiv(a, n, d) == IF a < 0 THEN -MulDiv(-a, n, d) ELSE MulDiv(a, n, d)

\* (1 - cos(pi k / 32)) / 2 in units of 2^-20, k = 0..32
Sin32 == <<0, 2525, 10074, 22576, 39909, 61907, 88358, 119008, 153560, 191683, 233009, 277140, 323652, 372095, 422004, 472899, 524288, 575677, 626572, 676481, 724924, 771436, 815567, 856893, 895016, 929568, 960218, 986669, 1008667, 1026000, 1038502, 1046051, 1048576>>
=============================================================================
