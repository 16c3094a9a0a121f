----------------------------- MODULE BuildTrace -----------------------------
EXTENDS Build, TraceLib
TraceInit0(h) == [c |-> <<>>, how |-> ""]
Start(e) ==
  LET c == e.c o == e.o IN
  First(<<Need(o.en = WantEn(c), "the agent does not start with the configured energy"),
          Need(o.inf = WantInf(c), "the agent does not have the configured influence"),
          Need(o.stub = WantStub(c), "the agent does not have the configured stubbornness"),
          Need(o.circ, "the agent starts off the circle"),
          Need(c.rp \/ SamePhase(o.ph, c.ph), "the agent does not start at the configured phase"),
          Need(c.rg \/ c.goalzero \/ SamePhase(o.goal, c.goal), "the agent does not prefer the configured phase"),
          IF c.rf \/ c.fr = 0 THEN Need(o.fr >= 50 * Ms /\ o.fr <= 150 * Ms, "the default frequency is not within 50..150 ms")
          ELSE Need(o.fr = c.fr, "the agent does not have the configured frequency"),
          Need(o.id, "the agent has another name")>>)
StepBuild(s, e) ==
  IF Known4(e.c) THEN Ver([c |-> e.c, how |-> e.how],
                          <<For("C27", Need(e.res = "ok", "a valid configuration is refused")),
                            IF e.res = "ok" THEN For("C27", Start(e)) ELSE "">>)
  ELSE Ver(s, <<For("C27", Need(e.res = "error", "a configuration naming an unknown part is accepted"))>>)
\* exactly between 0 and three quarters of a turn the way is the recorded deviation of C17
Still(e, c) == \/ c.st = "pulse" /\ ~e.due
               \/ c.st = "energy_aware" /\ CircDist(e.tgt, e.cur) < 100000 + 2 * Tol
MoveJ(c, e) ==
  IF e.odd THEN ""
  ELSE IF e.type = "maintain" THEN Need(Still(e, c), "the agent maintains where its strategy moves")
  ELSE Need(\E m \in Moves(c) : m.type = e.type /\ \E w \in Ways(e.tgt, e.cur) : ShareIs(e.v, w, m.r),
            "the agent does not move by the configured strategy and rate")
PerceiveJ(s, e) ==
  LET M == Most(s.c, s.how) IN
  First(<<Need(e.cnb = e.nb, "the perceived number of neighbours is wrong"),
          Need(e.nb > 0 \/ e.dens = 0, "an agent without neighbours perceives a density"),
          Need(e.dens >= 0 /\ Small(e.dens), "the perceived density is negative or not finite"),
          IF e.nb = 0 THEN "" ELSE
          IF M = {} THEN Need(e.dens <= One, "the perceived density is not a share of the possible neighbours")
          ELSE Need(\E m \in M : Abs(e.dens - (e.nb * One) \div m) <= 2, "the perceived density is not neighbours per possible neighbours")>>)
AllSame(q) == \A k \in 1..Len(q) : q[k] = q[1]
ManyJ(e) == First(<<Need(e.rp => ~AllSame(e.ph), "randomized phases are all the same"),
                    Need(e.rg => ~AllSame(e.goal), "randomized preferred phases are all the same"),
                    Need(e.rf => ~AllSame(e.fr), "randomized frequencies are all the same")>>)
\* the ready-made configurations: rows of phase, preferred phase, frequency, energy, influence, stubbornness
PresetJ(e) ==
  LET col(k) == [n \in 1..Len(e.rows) |-> e.rows[n][k]]
      r == e.rows[1]
  IN  IF e.name = "random" THEN First(<<Need(\A k \in 1..3 : ~AllSame(col(k)), "agents of the randomized configuration are all the same"),
                                        Need(\A k \in 4..6 : AllSame(col(k)), "the randomized configuration varies more than the starting state")>>)
      ELSE First(<<Need(AllSame(e.rows), "a configuration without randomization gives different agents"),
                   Need(SamePhase(r[1], 0), "a ready-made configuration does not start at phase 0"),
                   Need(SamePhase(r[2], IF e.name = "default" THEN TwoPi \div 2 ELSE 0), "a ready-made configuration prefers another phase than documented"),
                   Need(e.name # "default" \/ (r[3] = 100000 /\ r[4] = 100 * One /\ r[5] = Tenths(5) /\ r[6] = Tenths(2)),
                        "the default configuration does not give the default agent")>>)
TraceStep(s, e) ==
  CASE e.op = "build" -> StepBuild(s, e)
    [] e.op = "move" -> Ver(s, <<For("C27", MoveJ(s.c, e))>>)
    [] e.op = "perceive" -> Ver(s, <<For("C27", PerceiveJ(s, e))>>)
    [] e.op = "preset" -> Ver(s, <<For("C27", PresetJ(e))>>)
    [] e.op = "many" -> Ver(s, <<For("C27", ManyJ(e))>>)
=============================================================================
