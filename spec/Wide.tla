-------------------------------- MODULE Wide --------------------------------
(* Exact squares and sums beyond TLC's 32-bit integers, as five base-10000   *)
(* digits (least significant first), and the order parameter built on them.  *)
EXTENDS Integers, Sequences
WB == 10000
RECURSIVE Carry(_, _, _)
Carry(d, k, c) == IF k > Len(d) THEN <<c>> ELSE LET v == d[k] + c IN <<v % WB>> \o Carry(d, k + 1, v \div WB)
Norm(d) == Carry(d, 1, 0)
\* a * b for 0 <= a, b < 2^31
Mul(a, b) == LET a0 == a % WB  a1 == (a \div WB) % WB  a2 == a \div (WB * WB)
                 b0 == b % WB  b1 == (b \div WB) % WB  b2 == b \div (WB * WB)
             IN Norm(<<a0 * b0, a0 * b1 + a1 * b0, a0 * b2 + a1 * b1 + a2 * b0, a1 * b2 + a2 * b1, a2 * b2>>)
Sq(a) == Mul(a, a)
Add(x, y) == Norm([k \in 1..5 |-> x[k] + y[k]])
RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, k) == IF k = 0 THEN TRUE ELSE IF x[k] < y[k] THEN TRUE ELSE IF x[k] > y[k] THEN FALSE ELSE LeqFrom(x, y, k - 1)
Leq(x, y) == LeqFrom(x, y, 5)
AbsW(x) == IF x < 0 THEN -x ELSE x
\* r is the length of the vector (c, s) divided by n, within tol (all in the same unit)
LengthIs(r, c, s, n, tol) ==
  LET lo == IF r > tol THEN (r - tol) * n ELSE 0
      hi == (r + tol) * n
      q  == Add(Sq(AbsW(c)), Sq(AbsW(s)))
  IN r >= 0 /\ Leq(Sq(lo), q) /\ Leq(q, Sq(hi))
=============================================================================
