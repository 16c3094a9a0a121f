-------------------------------- MODULE Sim ---------------------------------
(* The simulation's control actions: who drives the agents, what a reset and *)
(* a disruption do to the phases and when their flags are shown.             *)
EXTENDS Base

\* phases (as a sorted sequence) of the worst starting state of each goal for n agents
Spread(n) == [k \in 1..n |-> ((k - 1) * TwoPi) \div n]
Equal0(n) == [k \in 1..n |-> 0]
Halves(n, first) == [k \in 1..n |-> IF k <= first THEN 0 ELSE TwoPi \div 2]
\* the irregular pattern: multiples of 1.7 rad (17/10 of One) around the circle
Irregular(n, oneRad) == {Wrap(((k - 1) * 17 * oneRad) \div 10) : k \in 1..n}

\* the sets of phase bags a reset may leave
WorstIs(goal, q) ==      \* q: recorded phases in increasing order
  LET n == Len(q) IN
  CASE goal \in {"batch", "consensus"} -> \A k \in 1..n : SamePhase(q[k], Spread(n)[k])
    [] goal \in {"load", "energy", "traffic"} -> \A k \in 1..n : SamePhase(q[k], 0)
    [] goal = "latency" -> \A k \in 1..n : SamePhase(q[k], Halves(n, n - n \div 2)[k])
    [] goal = "recover" -> \A k \in 1..n : SamePhase(q[k], Halves(n, n \div 2)[k])
    [] goal = "rhythm" -> LET w == Irregular(n, 1000000) IN
                          /\ \A k \in 1..n : \E x \in w : SamePhase(q[k], x)
                          /\ \A x \in w : \E k \in 1..n : SamePhase(q[k], x)
    [] OTHER -> TRUE

\* agents a disruption turned from p to q (sequences over the same agents)
Turned(p, q) == {k \in 1..Len(p) : ~SamePhase(p[k], q[k])}
FifthTurned(p, q) == /\ Cardinality(Turned(p, q)) = Len(p) \div 5
                     /\ \A k \in Turned(p, q) : SamePhase(q[k], p[k] + TwoPi \div 2)
=============================================================================
