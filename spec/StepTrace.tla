----------------------------- MODULE StepTrace ------------------------------
(* Recorded updates of attempts: the agents before and after each of them.   *)
EXTENDS Step, TraceLib
\* k: updates of this attempt; same: latest updates in a row that began from the same agents
TraceInit0(h) == [h |-> h, k |-> 0, same |-> 0]
\* agents with noise: none before the attempt can be stuck, and some as soon as it surely is
May(s) == s.k >= 6
Must(s) == s.same >= 14 /\ s.h.nm > 2000
Moved(q) == \E j \in 1..Len(q) : q[j][3] # q[j][1]
UpdJ(s, e) ==
  LET h == s.h m == e.m q == e.a cnt == Noisy(h, Len(q)) IN
  IF e.out = "nil" THEN (IF \A j \in 1..Len(q) : q[j][3] = q[j][1] /\ q[j][4] = q[j][2] THEN "" ELSE "agents were moved after success")
  ELSE First(<<Need(~LockStep(h, m, q), "agents at one place are moved alike"),
               Need(~Must(s) \/ Moved(q), "a stuck attempt is not shaken"),
               IF Leads(h, m, q, 0) THEN ""
               ELSE IF May(s) /\ Leads(h, m, q, cnt) THEN ""
               ELSE IF LeadsAstray(h, m, q, 0) THEN "astray"
               ELSE IF May(s) /\ LeadsAstray(h, m, q, cnt) THEN "astray"
               ELSE "the update does not lead to the goal as configured">>)
\* an undisturbed attempt: the best coherence within sixty updates
ReachJ(h, e) ==
  LET tg == TargetOf(h) IN
  First(<<Need(~e.gaveup \/ MaxOf(Budgets(h)) < 60, "the attempt gave up early"),
          Need(e.ok \/ e.gaveup \/ tg < 400000 \/ e.best >= Min2(tg, 800000) - 100000, "an undisturbed attempt does not synchronize the swarm")>>)
TraceStep(s, e) ==
  CASE e.op = "reach" -> Ver(s, <<For("C29", ReachJ(s.h, e))>>)
    [] e.op = "start" -> OK([s EXCEPT !.k = 0, !.same = 0])
    [] e.op = "upd" ->
       LET n == [s EXCEPT !.k = @ + 1, !.same = IF e.same THEN @ + 1 ELSE 1] j == UpdJ(n, e) IN
       IF j = "astray" THEN Known(n, "templates-pinned-at-zero") ELSE Ver(n, <<For("C29", j)>>)
=============================================================================
