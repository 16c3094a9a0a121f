------------------------------ MODULE Coherence ------------------------------
(* The order parameter and the measures derived from it.                      *)
(* A unit vector at a phase is <<c, s>> in units One; phases in units TwoPi.  *)
EXTENDS Base, Wide
Pi == TwoPi \div 2
SumC(vs) == SumSeq([k \in 1..Len(vs) |-> vs[k][1]])
SumS(vs) == SumSeq([k \in 1..Len(vs) |-> vs[k][2]])
\* r is the length of the mean vector
IsOrder(r, vs) == IF vs = <<>> THEN r = 0
                  ELSE r <= One /\ LengthIs(r, SumC(vs), SumS(vs), Len(vs), Tol)
\* the same with non-negative integer weights
IsWeighted(r, vs, ws) ==
  LET W == SumSeq(ws) IN
  IF W = 0 THEN r = 0
  ELSE /\ r <= One
       /\ LengthIs(r, SumSeq([k \in 1..Len(vs) |-> ws[k] * vs[k][1]]), SumSeq([k \in 1..Len(vs) |-> ws[k] * vs[k][2]]), W, Tol)
\* r is one minus the mean circular distance to the target divided by Pi
IsPhaseConv(r, ph, target) ==
  LET n == Len(ph)
      D == Mul(SumSeq([k \in 1..n |-> CircDist(ph[k], target)]), One)
  IN /\ 0 <= r /\ r <= One
     /\ Leq(Mul(Max2(One - r - Tol, 0), n * Pi), D)
     /\ Leq(D, Mul(One - r + Tol, n * Pi))
\* v is the mean squared circular deviation from the phase m
RECURSIVE SumSq(_, _, _)
SumSq(ph, m, k) == IF k = 0 THEN <<0, 0, 0, 0, 0>> ELSE Add(Sq(CircDist(ph[k], m)), SumSq(ph, m, k - 1))
IsVariance(v, ph, m) ==
  LET n == Len(ph)
      Q == SumSq(ph, m, n)
      tol == 10
  IN /\ v >= 0
     /\ Leq(Mul(Max2(v - tol, 0) * n, One), Q)
     /\ Leq(Q, Mul((v + tol) * n, One))
\* m is the direction of the mean vector: rotating by it leaves no sine part.
\* (dots, cross in units One, summed over the vectors relative to m)
IsDirection(rel) == SumC(rel) > 0 /\ Abs(SumS(rel)) <= Tol * Len(rel)
=============================================================================
