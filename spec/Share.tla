------------------------------- MODULE Share --------------------------------
(* Moves that are a share of a way on the circle, compared exactly.          *)
EXTENDS Mind, Wide
CloseW(x, y, slack) == Leq(x, Add(y, slack)) /\ Leq(y, Add(x, slack))
\* v is the share r / One of d
ShareIs(v, d, r) == /\ Small(v) /\ (Abs(v) <= Tol \/ Sign(v) = Sign(d))
                    /\ CloseW(Mul(Abs(v), One), Mul(Abs(d), r), Mul(2 * Tol, One))
=============================================================================
