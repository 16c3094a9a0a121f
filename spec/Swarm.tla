------------------------------- MODULE Swarm --------------------------------
(* What a swarm of N agents is: its agents, the neighbour relation, topology *)
(* builders, the views of it and disruptions (C06, C07, C08).                *)
EXTENDS Base

\* ---- construction -------------------------------------------------------
\* r: what was asked for.  r.size, r.goalok (the goal state is valid),
\* r.limit (configured maximum size, 0 = none), r.topoerr (the custom
\* topology builder fails)
Rejected(r) == r.size <= 0 \/ ~r.goalok \/ (r.limit > 0 /\ r.size > r.limit) \/ r.topoerr
EffMax(r) == IF r.size = 1 THEN 0 ELSE Clamp(r.max, 1, r.size - 1)
EffMin(r) == IF r.size = 1 THEN 0 ELSE Clamp(r.min, 0, EffMax(r))

\* ---- graphs: adj is a sequence of sets of positions ----------------------
Symmetric(adj)  == \A a \in 1..Len(adj) : \A b \in adj[a] : a \in adj[b]
Loopless(adj)   == \A a \in 1..Len(adj) : a \notin adj[a]
MinDegree(adj, m) == \A a \in 1..Len(adj) : Cardinality(adj[a]) >= m
IsFull(adj)     == \A a \in 1..Len(adj) : adj[a] = (1..Len(adj)) \ {a}
IsStar(adj)     == \E h \in 1..Len(adj) :
                     /\ adj[h] = (1..Len(adj)) \ {h}
                     /\ \A a \in (1..Len(adj)) \ {h} : adj[a] = {h}
RECURSIVE Reach(_, _, _)
Reach(adj, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == (UNION {adj[a] : a \in front}) \ seen IN Reach(adj, seen \cup nx, nx)
Connected(adj)  == Reach(adj, {1}, {1}) = 1..Len(adj)
IsRing(adj)     == /\ \A a \in 1..Len(adj) : Cardinality(adj[a]) = IF Len(adj) = 2 THEN 1 ELSE 2
                   /\ Connected(adj)
IsNamed(kind, adj) == CASE kind = "full" -> IsFull(adj) [] kind = "ring" -> IsRing(adj) [] kind = "star" -> IsStar(adj)
TopoRefused(kind, n) == n < 2 /\ kind \in {"ring", "star"}

\* ---- disruption ----------------------------------------------------------
DisruptCount(n, p) == (n * Clamp(p, 0, One)) \div One
=============================================================================
