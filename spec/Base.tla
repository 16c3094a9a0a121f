-------------------------------- MODULE Base --------------------------------
(* Arithmetic shared by all specifications: the circle and bounded numbers,  *)
(* in integer units (TwoPi units make a full turn, One units make 1.0).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS TwoPi, One, Tol

\* recorded values beyond this are only known to be large
Huge == 2000000000
Small(x)     == x < Huge /\ -x < Huge

Abs(x)       == IF x < 0 THEN -x ELSE x
Min2(a, b)   == IF a < b THEN a ELSE b
Max2(a, b)   == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b)   == Abs(a - b) <= Tol
NearT(a, b, tol) == Abs(a - b) <= tol
\* the representative of x in 0..TwoPi-1
Wrap(x)      == x % TwoPi
\* unsigned distance on the circle
CircDist(a, b) == LET d == Wrap(a - b) IN Min2(d, TwoPi - d)
\* signed shorter way from b to a, in -Pi..Pi
CircDiff(a, b) == LET d == Wrap(a - b) IN IF 2 * d > TwoPi THEN d - TwoPi ELSE d
SamePhase(a, b) == CircDist(a, b) <= Tol

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE MinSeq(_)
MinSeq(q) == IF Len(q) = 1 THEN q[1] ELSE Min2(Head(q), MinSeq(Tail(q)))
RECURSIVE MaxSeq(_)
MaxSeq(q) == IF Len(q) = 1 THEN q[1] ELSE Max2(Head(q), MaxSeq(Tail(q)))
Range(q) == {q[k] : k \in 1..Len(q)}
=============================================================================
