----------------------------- MODULE SwarmConnMC ----------------------------
(* The design of connection establishment: agents are processed in turn; each*)
(* may be connected to some others (any outcome of the random draws), with   *)
(* both ends updated together; then missing neighbours up to the configured  *)
(* minimum are added.  TLC checks every outcome.                             *)
EXTENDS Swarm
CONSTANTS N
VARIABLES adj, k, min, max
Ag == 1..N
Init == /\ adj = [a \in Ag |-> {}] /\ k = 1
        /\ max \in 1..N-1 /\ min \in 0..max
Link(f, a, S) == [b \in Ag |-> IF b = a THEN f[b] \cup S ELSE IF b \in S THEN f[b] \cup {a} ELSE f[b]]
Process == /\ k <= N
           /\ \E S \in SUBSET ((Ag \ {k}) \ adj[k]) :
                /\ Cardinality(S \cup adj[k]) <= Max2(max, Cardinality(adj[k]))
                /\ LET f == Link(adj, k, S) IN
                   \E T \in SUBSET ((Ag \ {k}) \ f[k]) :
                     /\ Cardinality(T) = Max2(0, min - Cardinality(f[k]))
                     /\ adj' = Link(f, k, T)
           /\ k' = k + 1 /\ UNCHANGED <<min, max>>
Spec == Init /\ [][Process]_<<adj, k, min, max>>
Sound == Symmetric(adj) /\ Loopless(adj)
Minimum == k > N => MinDegree(adj, min)
\* the topology predicates name exactly the intended graphs
RingOf(n) == [a \in 1..n |-> {((a - 2 + n) % n) + 1, (a % n) + 1}]
StarOf(n) == [a \in 1..n |-> IF a = 1 THEN 2..n ELSE {1}]
FullOf(n) == [a \in 1..n |-> (1..n) \ {a}]
ASSUME \A n \in 2..6 : IsRing(RingOf(n)) /\ IsStar(StarOf(n)) /\ IsFull(FullOf(n)) /\ Symmetric(RingOf(n)) /\ Symmetric(StarOf(n))
ASSUME \A n \in 4..6 : ~IsRing(StarOf(n)) /\ ~IsStar(RingOf(n)) /\ ~IsRing(FullOf(n))
ASSUME ~IsRing(<<{2, 3}, {1, 3}, {1, 2}, {5, 6}, {4, 6}, {4, 5}>>)
=============================================================================
