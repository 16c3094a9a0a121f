--------------------------- MODULE AgentConcTrace ---------------------------
(* Validates rounds of concurrent operations on one real agent (C03).        *)
EXTENDS Agent, TraceLib

FieldOf(g) == CASE g = "Phase" -> "ph" [] g = "LocalGoal" -> "goal" [] g = "Energy" -> "en" [] g = "Frequency" -> "fr"
                [] g = "Influence" -> "inf" [] g = "Stubbornness" -> "stub"
Same(f, x, y) == IF f \in {"ph", "goal"} THEN SamePhase(x, y) ELSE Near(x, y)
AApply(a, o) ==
  IF o.op = "act" THEN {[s |-> Act(a, o.kind, o.v, o.x), ok |-> o.res = Outcome(a, o.kind, o.x)]}
  ELSE IF o.op \in Setters THEN {[s |-> Set(a, o.op, o.x), ok |-> TRUE]}
  ELSE {[s |-> a, ok |-> Same(FieldOf(o.op), a[FieldOf(o.op)], o.x)]}
AFinal(a, f) == \A q \in {"ph", "goal", "en", "fr", "inf", "stub"} : Same(q, a[q], f[q])
L == INSTANCE Lin WITH Apply <- AApply, FinalOK <- AFinal

\* Many threads apply the same action of cost e.c many times, starting with
\* energy e.en0, while one thread each owns the preferred phase, frequency,
\* influence and stubbornness.  All these operations commute or are owned, so
\* every one-at-a-time order ends the same.
BulkJ(e) ==
  LET want == Min2(e.n, e.en0 \div e.c)
  IN First(<<Need(e.succ = want, "number of successful actions is not what the energy allows"),
             Need(e.succ + e.refused = e.n, "an action neither succeeded nor was refused for lack of energy"),
             Need(e.en = e.en0 - want * e.c, "energy left is not what the successful actions leave"),
             Need(CircDist(e.ph, ((want % 16) * TwoPi) \div 16) <= 20, "phase is not the sum of the successful actions"),
             Need(e.goal = e.wgoal /\ e.fr = e.wfr, "an update of another quantity was lost"),
             Need(e.inf = e.winf /\ e.stub = e.wstub, "a behaviour update was lost"),
             Need(e.stale = 0, "a quantity's only writer read back an older value")>>)

TraceInit0(h) == 0
TraceStep(s, e) ==
  CASE e.op = "round" -> Ver(s, <<Need(L!Explained(e.init, e.th, e.fin), "no one-at-a-time order explains the results and the final state")>>)
    [] e.op = "bulk"  -> Ver(s, <<BulkJ(e)>>)
=============================================================================
