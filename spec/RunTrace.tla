------------------------------ MODULE RunTrace ------------------------------
(* Recorded runs: one event per update interval, with the measurement of the *)
(* agents just before it and whether and how the run has ended since.        *)
EXTENDS Sync, TraceLib
TraceInit0(h) == [h |-> h, k |-> 0, over |-> TRUE, ctx |-> FALSE, cur |-> 0, from |-> -1, has |-> FALSE]
\* ---- C10 ----
TickJ(s, e) ==
  LET a == Achieved3(s.h, e.m)  k == s.k + 1  B == Budgets(s.h) IN
  IF s.over THEN "an update after the end of the run"
  ELSE CASE e.out = "nil" -> First(<<Need(a # "no", "success was returned although the target was not reached"), Need(~e.touched, "agents were moved after success")>>)
    [] e.out = "ctx" -> Need(s.ctx, "the context's error was returned while the context was alive")
    [] e.out = "err" -> First(<<Need(a # "yes", "success was not returned at the first measurement that reached the target"), Need(k \in B, "the run gave up after a wrong number of update intervals")>>)
    [] OTHER -> First(<<Need(~s.ctx, "the run went on after the context had ended"),
                        Need(a # "yes", "success was not returned at the first measurement that reached the target"),
                        Need(k < MaxOf(B), "the run did not give up in time")>>)
\* ---- C12: what the swarm reports after the measurement ----
ReportJ(s, e) ==
  LET c == GE3(e.m.coh, GoalOf(s.h)) IN
  First(<<Need(NearT(e.cur, e.m.coh, 3), "the reported coherence is not the last measurement"),
          Need(TRUE \in Bools(c) \/ ~e.isconv, "converged is reported below the threshold"),
          Need(FALSE \in Bools(c) \/ e.isconv, "converged is not reported at the threshold"),
          IF ~s.h.timed THEN ""
          ELSE Need(e.ctime = (IF ~e.isconv THEN 0 ELSE IF s.from >= 0 THEN s.from ELSE e.at), "the convergence time is not that of the current stretch")>>)
TraceStep(s, e) ==
  CASE e.op = "start" -> OK([s EXCEPT !.k = 0, !.over = FALSE, !.ctx = e.ctx])
    [] e.op = "early" -> Ver([s EXCEPT !.over = TRUE],
         <<For("C10", CASE e.out = "ctx" -> Need(s.ctx, "the context's error was returned while the context was alive")
                        [] e.out = "err" -> Need(0 \in Budgets(s.h), "the run gave up before its first measurement")
                        [] OTHER -> "success was returned between two measurements")>>)
    [] e.op = "cancel" -> OK([s EXCEPT !.ctx = TRUE])
    [] e.op = "tick" ->
         LET nil == [s EXCEPT !.k = @ + 1, !.over = (e.out # "run")]
             meas == ~s.ctx /\ e.out # "ctx"
             n == IF meas THEN [nil EXCEPT !.from = IF ~e.isconv THEN -1 ELSE IF s.from >= 0 THEN s.from ELSE e.at] ELSE nil
         IN Ver(n, <<For("C10", TickJ(s, e)), IF meas THEN For("C12", ReportJ(s, e)) ELSE "">>)
    [] e.op = "quiet" -> Ver(s, <<For("C10", Need(~e.touched, "agents were moved after the run had ended")),
                                  For("C12", Need(e.cur = e.cur0, "the report changed after the run had ended"))>>)
    [] e.op = "reset" -> Ver([s EXCEPT !.from = -1, !.k = 0], <<For("C12", Need(e.cur = 0 /\ ~e.isconv /\ e.ctime = 0, "a reset did not clear the report"))>>)
=============================================================================
