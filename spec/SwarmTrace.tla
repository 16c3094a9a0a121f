----------------------------- MODULE SwarmTrace -----------------------------
EXTENDS Swarm, TraceLib
TraceInit0(h) == 0
Adj(o) == [a \in 1..Len(o.adj) |-> Range(o.adj[a])]
GraphJ(o) ==
  LET adj == Adj(o) IN
  First(<<Need(Loopless(adj) /\ (\A a \in 1..Len(o.selfc) : ~o.selfc[a]), "an agent is its own neighbour"),
          Need(Symmetric(adj), "the connections are not symmetric"),
          Need(\A a \in 1..Len(adj) : o.deg[a] = Cardinality(adj[a]), "a connection leads outside the swarm or is counted twice")>>)

\* ---- C06 ----
BuildJ(e) ==
  IF Rejected(e) THEN First(<<Need(e.res = "err", "an impossible request was not rejected"), Need(~e.has, "a rejected request left a swarm")>>)
  ELSE IF e.res # "ok" \/ ~e.has THEN "a valid request was rejected"
  ELSE LET o == e.o  adj == Adj(o) IN
  First(<<Need(o.size = e.size /\ Len(o.keys) = e.size /\ Cardinality(Range(o.keys)) = e.size, "the swarm does not have exactly the requested number of distinct agents"),
          Need(o.keys = o.own, "an agent is not listed under its own name"),
          Need(\A k \in 1..Len(o.look) : o.look[k], "an agent is not found under its own name"),
          GraphJ(o),
          IF e.topo THEN Need(adj = [a \in 1..Len(e.wadj) |-> Range(e.wadj[a])], "the custom topology was not used")
          ELSE Need(MinDegree(adj, EffMin(e)), "an agent has fewer neighbours than the configured minimum"),
          IF e.builder THEN Need(o.built = e.size /\ Len(o.keys) = e.size, "the custom agents were not used")
          ELSE Need(\A k \in 1..Len(o.en) : Near(o.en[k], IF e.en <= 0 THEN 100 * One ELSE e.en), "an agent does not start with the configured energy")>>)

\* ---- C07 ----
TopoJ(e) ==
  IF TopoRefused(e.kind, e.n) THEN Need(e.err /\ e.errkind, "a topology of fewer than two agents was not refused")
  ELSE First(<<Need(~e.err, "the topology builder failed"),
               Need(e.n = Len(e.o.adj), "agents are missing"),
               GraphJ(e.o),
               Need(e.n < 2 \/ IsNamed(e.kind, Adj(e.o)), "the built graph is not a " \o e.kind \o " graph")>>)

\* ---- C08 ----
ViewsJ(e) ==
  LET all == Range(e.keys) IN
  First(<<Need(Cardinality(all) = e.n /\ Len(e.keys) = e.n, "listing does not show every agent once"),
          Need(e.size = e.n, "the reported size is wrong"),
          Need(e.keys = e.own, "an agent is listed under another name"),
          Need(\A k \in 1..Len(e.look) : e.look[k], "lookup by name and listing disagree"),
          Need(Range(e.visit) = all /\ Len(e.visit) = e.n, "visiting does not reach every agent exactly once"),
          Need(e.samev, "visiting yields other agents than listing"),
          Need(\A k \in 1..Len(e.stops) : e.stops[k].got = Clamp(e.stops[k].k, 1, e.n), "a visit does not stop when the visitor says so"),
          Need(\A k \in 1..Len(e.unknown) : ~e.unknown[k], "an unknown name was found")>>)
DisruptJ(e) ==
  LET n == Len(e.moved)
      want == DisruptCount(n, e.p)
      cnt == Cardinality({k \in 1..n : e.moved[k]})
  IN First(<<Need(cnt <= want, "a disruption moved more agents than its fraction"),
             Need(cnt = want, "a disruption did not reach its fraction of the agents"),
             Need(\A k \in 1..n : e.okph[k], "a disruption left a phase outside the circle"),
             Need(e.pre = e.post, "a disruption changed something other than phases"),
             Need(e.padj = e.qadj, "a disruption changed connections"),
             Need(e.cur = 0 /\ ~e.conv /\ e.time = 0, "a disruption did not forget the recorded convergence")>>)
RecordedJ(e) == Need(e.cur > 0, "the run before the disruption recorded nothing")

TraceStep(s, e) ==
  CASE e.op = "build" -> Ver(s, <<For("C06", BuildJ(e))>>)
    [] e.op = "topo" -> Ver(s, <<For("C07", TopoJ(e))>>)
    [] e.op = "views" -> Ver(s, <<For("C08", ViewsJ(e))>>)
    [] e.op = "disrupt" -> Ver(s, <<For("C08", DisruptJ(e))>>)
    [] e.op = "recorded" -> OK(s)
=============================================================================
