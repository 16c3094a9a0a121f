-------------------------------- MODULE Mind --------------------------------
(* How an agent decides: strategies that propose moves on the circle, the    *)
(* choice among options, the blending of goals and the acceptance gate.      *)
EXTENDS Base
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* the ways to go from phase b to phase a: one, or both when they are (nearly) opposite
Ways(a, b) == LET d == CircDiff(a, b) IN IF 2 * Abs(d) >= TwoPi - 4 * Tol THEN {d, IF d > 0 THEN d - TwoPi ELSE d + TwoPi} ELSE {d}
\* ---- the choice among options [b |-> benefit, c |-> cost], in units where a tenth of a cost unit is Tenth ----
Cost(o, Tenth) == Max2(o.c, Tenth)
\* o1 is worth more than o2
Better(o1, o2, Tenth) == o1.b * Cost(o2, Tenth) > o2.b * Cost(o1, Tenth)
Best(q, Tenth) == {k \in 1..Len(q) : \A j \in 1..Len(q) : ~Better(q[j], q[k], Tenth)}
\* the first of equally good ones; options of equal worth with different numbers are not told apart
Choices(q, Tenth) == {k \in Best(q, Tenth) :
    \A j \in Best(q, Tenth) : j < k => q[j].b # q[k].b \/ Cost(q[j], Tenth) # Cost(q[k], Tenth)}
\* ---- acceptance: who may accept, and who must ----
\* a: stub, en ; p: the chosen action's cost
MayAccept(a, cost, conf, acc) == a.stub < One /\ cost <= a.en /\ conf > 0 /\ acc > 0
MustAccept(a, cost, conf, acc) == a.stub = 0 /\ cost <= a.en /\ conf >= One /\ acc >= One
=============================================================================
