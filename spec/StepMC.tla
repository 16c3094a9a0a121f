------------------------------- MODULE StepMC -------------------------------
(* N agents on a grid of the circle, updated again and again by the expected *)
(* move of Step (random factors at their mean, rounded to the grid).  The    *)
(* common part leads to phase Away: with Away = the goal's (0) a swarm is    *)
(* drawn together and to the goal from everywhere; with templates at another *)
(* phase TLC finds swarms that are kept away from their goal.                *)
EXTENDS Step
CONSTANTS N, Away, Goal, Size
VARIABLES p
Cells == 36
G == TwoPi \div Cells
CosT == <<1000000, 984808, 939693, 866025, 766044, 642788, 500000, 342020, 173648, 0, -173648, -342020, -500000, -642788, -766044, -866025, -939693, -984808, -1000000, -984808, -939693, -866025, -766044, -642788, -500000, -342020, -173648, 0, 173648, 342020, 500000, 642788, 766044, 866025, 939693, 984808>>
C(k) == CosT[(k % Cells) + 1]
h == [size |-> Size, via |-> "new", goal |-> Goal, tols |-> <<15000, 8000, 5000>>, pdt |-> 100000, pcg |-> 850000, high |-> 900000, fac |-> 20000,
      gp |-> 0, gf |-> 100000, base |-> 6500, pv |-> 500000, vh |-> 920000, mod |-> 850000, b0 |-> 1500, b1 |-> 3000, cf |-> 2000,
      rwm |-> 100000, pm |-> 80000, pch |-> 1, nm |-> 0, aff |-> 1000]
Dot(q, k) == SumSeq([j \in 1..Len(q) |-> C(q[j] - k)])
\* the grid points nearest to the mean
Means(q) == {k \in 0..(Cells - 1) : \A j \in 0..(Cells - 1) : Dot(q, j) <= Dot(q, k)}
Sq2(d) == (d \div 1000) * (d \div 1000)
Meas(q, k) == [coh |-> Dot(q, k) \div Len(q), mean |-> k * G, f |-> 100000,
               var |-> SumSeq([j \in 1..Len(q) |-> Sq2(CircDist(q[j] * G, k * G))]) \div Len(q)]
Options(q) == UNION {UNION {{[m |-> Meas(q, k), kd |-> kd, A |-> A] : kd \in Kinds(h, Meas(q, k)), A \in Common(h, Meas(q, k), Away * G)}} : k \in Means(q)}
\* the expected move of an agent at a that is pulled
Move(o, d) == CASE o.kd.k = "align" -> IF Abs(d) > h.pdt THEN Prod(Prod(d, o.kd.sc), 9000) ELSE 0
                [] o.kd.k = "pull" -> IF Abs(d) > Idle(h, o.m) THEN Prod(o.A, 3000) + Prod(d, o.kd.sc) ELSE 0
                [] OTHER -> 0
Round(v) == IF v >= 0 THEN (2 * v + G) \div (2 * G) ELSE 0 - ((G - 2 * v) \div (2 * G))
To(o, a) == {(a + Round(Move(o, d))) % Cells : d \in BothWays(0, a * G)}
Mean0(q) == CHOOSE k \in Means(q) : TRUE
Init == p \in [1..N -> 0..(Cells - 1)] /\ \A j \in 1..(N - 1) : p[j] <= p[j + 1]
Next == \E o \in Options(p) : p' \in {q \in [1..N -> UNION {To(o, p[j]) : j \in 1..N}] : \A j \in 1..N : q[j] \in To(o, p[j])}
Spec == Init /\ [][Next]_p /\ WF_p(Next)
\* some kind of update applies to every swarm
Total == Options(p) # {}
\* a swarm that is together but off the goal goes there, the shorter way
Together == \A i, j \in 1..N : p[i] = p[j]
Arrives == (Goal >= 400000 /\ Together /\ CircDist(p[1] * G, 0) > 100000) => \A o \in Options(p) : o.kd.k \in {"align", "thin"} \/
             LET d == CircDiff(0, p[1] * G) b == Prod(o.A, 3000) + Prod(d, o.kd.sc) IN
             2 * Abs(d) >= TwoPi - 2 * Ts \/ (d > 0 /\ b > 0) \/ (d < 0 /\ b < 0)
\* no move is greater than half a turn, and a lone pull never passes the goal
Sober == \A o \in Options(p) : \A j \in 1..N : \A d \in BothWays(0, p[j] * G) :
           /\ Abs(Move(o, d)) < TwoPi \div 2
           /\ (o.kd.k = "align" \/ o.A = 0) => Abs(Move(o, d)) <= Abs(d)
\* targets that ask for synchronization are approached from everywhere (nearly synchronized swarms are
\* corrected in steps too small for the grid)
Nearby == LET k == Mean0(p) IN Meas(p, k).coh >= TargetOf(h) - 60000 /\ (CircDist(k * G, 0) <= 3 * G \/ \E o \in Options(p) : o.kd.k = "thin")
Gathered == <>Nearby
=============================================================================
