--------------------------- MODULE CoherenceTrace ---------------------------
EXTENDS Coherence, TraceLib
TraceInit0(h) == 0
SwarmJ(e) ==
  First(<<Need(IsOrder(e.r, e.vs), "the swarm's coherence is not the order parameter"),
          Need(\A k \in 1..Len(e.conv) : IsPhaseConv(e.conv[k].r, e.ph, e.conv[k].t), "the phase convergence is not one minus the mean circular distance"),
          IF e.hasm THEN First(<<Need(IsDirection(e.rel), "harness: not the mean direction"),
                                 Need(IsVariance(e.v, e.ph, e.m), "the phase variance is not the mean squared circular deviation")>>) ELSE ""
          >>)
TraceStep(s, e) ==
  CASE e.op = "core" -> Ver(s, <<Need(IsOrder(e.r, e.vs), "the coherence is not the order parameter")>>)
    [] e.op = "weighted" -> Ver(s, <<Need(IsWeighted(e.r, e.vs, e.ws), "the weighted coherence is not the weighted order parameter")>>)
    [] e.op = "local" -> Ver(s, <<Need(IsOrder(e.r, e.vs) /\ IsOrder(e.own, e.vs), "the local coherence is not the order parameter of the neighbours")>>)
    [] e.op = "swarm" -> Ver(s, <<SwarmJ(e)>>)
=============================================================================
