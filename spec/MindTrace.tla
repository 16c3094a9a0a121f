----------------------------- MODULE MindTrace ------------------------------
EXTENDS Share, TraceLib
\* state: when the last pulse was sent, and the moves and costs seen of one strategy
TraceInit0(h) == [last |-> h.at, seen |-> {}]
Dist(e) == CircDist(e.tgt, e.cur)
\* 0.1 rad in phase units is 100000
Near01(e) == Abs(Dist(e) - 100000) <= 2 * Tol
Due(s, e) == e.at - s.last >= e.period
Maintains(s, e) == CASE e.s = "energy" -> IF Near01(e) THEN {TRUE, FALSE} ELSE {Dist(e) < 100000}
                     [] e.s = "pulse" -> {~Due(s, e)}
                     [] OTHER -> {FALSE}
Rate(e) == IF e.s = "energy" THEN One \div 10 ELSE e.rate
Names == [nudge |-> "phase_nudge", lock |-> "frequency_lock", energy |-> "energy_save", pulse |-> "pulse"]
MoveJ(s, e) ==
  First(<<Need((e.type = "maintain") \in Maintains(s, e), "the strategy moves when it should maintain or maintains when it should move"),
          IF e.type = "maintain" THEN Need(e.v = 0, "a maintain action moves")
          ELSE First(<<Need(e.type = Names[e.s], "another kind of move is proposed"),
                       Need(\E w \in Ways(e.tgt, e.cur) : ShareIs(e.v, w, Rate(e)), "the move is not the declared share of the shorter way")>>),
          Need(e.c >= 0 /\ Small(e.c), "a negative cost"),
          Need(e.conf >= 0 /\ e.conf <= One, "the confidence is outside 0..1"),
          IF e.type = "maintain" THEN "" ELSE
          First(<<Need(Abs(e.v) <= 2 * Tol \/ e.c > 0, "a move is free"),
                  Need(\A x \in s.seen : /\ Abs(x.v) > Abs(e.v) + 2 * Tol => x.c >= e.c - 4 * Tol
                                        /\ Abs(e.v) > Abs(x.v) + 2 * Tol => e.c >= x.c - 4 * Tol, "a longer move costs less")>>)>>)
\* the recorded deviation: exactly between 0 and three quarters of a turn the move goes the other way
Odd(s, e) == e.odd /\ e.type # "maintain" /\ (\E w \in Ways(e.tgt, e.cur) : ShareIs(0 - e.v, w, Rate(e)))
             /\ ~\E w \in Ways(e.tgt, e.cur) : ShareIs(e.v, w, Rate(e))
AfterMove(s, e) == [s EXCEPT !.last = IF e.s = "pulse" /\ e.type # "maintain" THEN e.at ELSE @,
                             !.seen = IF e.type = "maintain" \/ Cardinality(@) > 40 THEN @ ELSE @ \cup {[v |-> e.v, c |-> e.c]}]
StepMove(s, e) == LET n == AfterMove(s, e) IN
  IF Prop = "C17" /\ Odd(s, e) /\ MoveJ(s, [e EXCEPT !.v = 0 - e.v]) = "" THEN Known(n, "phase-difference-three-quarters")
  ELSE Ver(n, <<For("C17", MoveJ(s, e))>>)
AdaptJ(e) ==
  IF e.n = 0 THEN Need(e.called = <<>> /\ e.type = "maintain" /\ e.v = 0, "an empty adaptive strategy does not maintain")
  ELSE First(<<Need(Len(e.called) = 1 /\ e.called[1] \in 0..(e.n - 1), "not exactly one member is asked"),
               Need(e.asked, "the member is asked about something else"),
               Need(e.same, "the member's answer is not passed on"),
               Need(e.pick \in 0..(e.n - 1) => e.called[1] = e.pick, "the selected member is not the one asked")>>)
\* ---- C18 ----
Tenth == 100
DecideJ(e) ==
  IF e.opts = <<>> THEN Need(e.type = "maintain", "no options but something else than maintaining is chosen")
  ELSE First(<<Need(e.k \in Choices(e.opts, Tenth), "the choice is not the first of the greatest benefit per cost"),
               Need(e.kept, "the options are changed"),
               Need(e.conf >= 0 /\ e.conf <= One, "the confidence is outside 0..1")>>)
W(e) == Clamp(e.w, 0, One)
BlendMoves(e, sgn) == \E w \in Ways(e.tgt, e.cur) : \E x \in {CircDiff(e.ph, e.cur)} :
                        ShareIs(sgn * x, w, W(e)) \/ (2 * Abs(x) >= TwoPi - 4 * Tol /\ CloseW(Mul(Abs(x), One), Mul(Abs(w), W(e)), Mul(2 * Tol, One)))
LinearIs(r, a, b, w) == CloseW(Mul(r, One), Add(Mul(a, One - w), Mul(b, w)), Mul(2 * Tol, One))
BlendRest(e) == First(<<Need(e.circ, "the blended phase is off the circle"),
                        Need(e.fr, "the frequency is not the local one"),
                        Need(LinearIs(e.coh, e.lc, e.gc, W(e)), "coherence is not mixed linearly")>>)
StepBlend(s, e) ==
  IF Prop = "C18" /\ e.odd /\ ~BlendMoves(e, 1) /\ BlendMoves(e, -1) /\ BlendRest(e) = "" THEN Known(s, "phase-difference-three-quarters")
  ELSE Ver(s, <<For("C18", First(<<Need(BlendMoves(e, 1), "the blended phase is not the weighted share of the shorter way"), BlendRest(e)>>))>>)
ProposeJ(e) ==
  LET q == <<[b |-> e.prop.b, c |-> e.prop.c], [b |-> e.ctx.stab, c |-> Tenth]>>
      chosen == IF e.decider = "simple" THEN Choices(q, Tenth) ELSE {e.dec}
      CostOf(k) == IF k = 1 THEN e.prop.c ELSE Tenth
      \* costs and energy in 1/1000; confidences in 1e-6
      ag == [stub |-> e.stub, en |-> e.en]
  IN First(<<Need(e.kept, "proposing changes the agent"),
             Need(e.asked, "the strategy is not asked about the agent's own phase and preferred phase"),
             IF e.ok
             THEN First(<<Need(\E k \in chosen : e.k = k, "another action than the chosen one is proposed"),
                          Need(MayAccept(ag, CostOf(e.k), e.conf, e.acc), "a change is accepted against stubbornness, energy or confidence")>>)
             ELSE First(<<Need(e.type = "maintain" /\ e.v = 0, "a refusal is not a maintain action"),
                          Need(~\A k \in chosen : MustAccept(ag, CostOf(k), e.conf, e.acc), "a certain, affordable change is refused")>>)>>)
\* a context update with neighbours in pairs around one mean
RECURSIVE Mids(_, _)
Mids(e, k) == IF k > Len(e.pairs) THEN {} ELSE
              LET a == e.pairs[k][1] b == e.pairs[k][2] IN {Wrap(a + CircDiff(b, a) \div 2)} \cup Mids(e, k + 1)
Mean(e) == CHOOSE m \in Mids(e, 1) : TRUE
Between(e) == LET m == Mean(e) g == CircDiff(e.goal, e.cur) IN
              \E w \in Ways(m, e.cur) : /\ Abs(g) <= Abs(w) + 3 * Tol
                                       /\ 2 * Abs(g) >= Abs(w) - 6 * Tol
                                       /\ (Abs(g) <= 3 * Tol \/ Sign(g) = Sign(w))
                                       /\ (e.tight => Abs(g - w) <= 6 * Tol)
CtxJ(e) == First(<<Need(e.kept, "a context update changes more than the preferred phase"),
                   IF e.pairs = <<>> THEN Need(SamePhase(e.goal, e.goal0), "an agent without neighbours changes its preference")
                   ELSE IF \A x, y \in Mids(e, 1) : CircDist(x, y) <= 3 * Tol
                   THEN Need(2 * CircDist(Mean(e), e.cur) >= TwoPi - 40 * Tol \/ Between(e), "the preferred phase is not between the agent's and its neighbours' mean") ELSE "">>)
TraceStep(s, e) ==
  CASE e.op = "move" -> StepMove(s, e)
    [] e.op = "adapt" -> Ver(s, <<For("C17", AdaptJ(e))>>)
    [] e.op = "decide" -> Ver(s, <<For("C18", DecideJ(e))>>)
    [] e.op = "blend" -> StepBlend(s, e)
    [] e.op = "propose" -> Ver(s, <<For("C18", ProposeJ(e))>>)
    [] e.op = "ctx" -> Ver(s, <<For("C18", CtxJ(e))>>)
=============================================================================
