--------------------------- MODULE AgentPoolTrace ----------------------------
EXTENDS AgentPool, TraceLib
TraceInit0(h) == [own |-> {}, idle |-> {}, takes |-> 0, gives |-> 0, news |-> 0, all |-> {}]
TakeJ(s, n, e) ==
  First(<<Need(e.a \notin s.own, "an agent is handed to two owners"),
          Need(e.o.named, "a taken agent does not carry the requested name"),
          Need(e.o.nb = 0 /\ e.o.map = 0 /\ e.o.part = 0, "a taken agent still has neighbors"),
          Need(e.o.en = Full, "a taken agent does not have full energy"),
          Need(e.o.okph /\ e.o.okgoal /\ e.o.okinf /\ e.o.okstub /\ e.o.okfr, "a taken agent has a quantity out of range"),
          Need(CountersOK(n, e.o), "the counters are not those of the takes, returns and new agents")>>)
TraceStep(s, e) ==
  CASE e.op = "take" -> LET n == Take(s, e.a) IN Ver(n, <<For("C22", TakeJ(s, n, e))>>)
    [] e.op = "give" -> LET n == Give(s, e.a) IN Ver(n, <<For("C22", Need(CountersOK(n, e.o), "the counters are not those of the takes, returns and new agents"))>>)
    [] e.op = "probe" -> Ver(s, <<For("C22", First(<<Need(e.called, "a taken agent makes no decision"), Need(e.stab = 0 /\ e.dens = 0 /\ e.cnb = 0, "a taken agent does not have an empty context")>>))>>)
    [] e.op = "known" -> OK([s EXCEPT !.all = @ \cup {e.a}])
    [] e.op = "try" -> Ver(s, <<For("C22", Need(e.ok, "a taken agent is not usable"))>>)
    [] e.op = "none" -> Ver(s, <<For("C22", Need(CountersOK(s, e.o), "returning nothing is counted"))>>)
    [] e.op = "burst" -> Ver(s, <<For("C22", First(<<Need(e.double = 0, "an agent is handed to two owners"),
                                   Need(e.dirty = 0, "a taken agent is not clean"),
                                   Need(e.gets = e.takes /\ e.puts = e.gives /\ e.inuse = e.takes - e.gives /\ e.news = e.fresh, "the counters are not those of the takes, returns and new agents")>>))>>)
    [] OTHER -> OK(s)
=============================================================================
