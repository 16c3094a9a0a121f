------------------------------ MODULE SimTrace ------------------------------
EXTENDS Sim, TraceLib
\* paused, started, stopped; q: the phases last seen while paused
TraceInit0(h) == [goal |-> h.goal, n |-> h.n, target |-> h.target, paused |-> FALSE, started |-> FALSE, stopped |-> FALSE, peak |-> 0]
\* one look at the simulation
SaneJ(s, w) ==
  First(<<Need(Len(w.ph) = s.n /\ w.ids = s.n, "a snapshot does not show every agent once"),
          Need(\A k \in 1..Len(w.ph) : w.ph[k] \in 0..TwoPi, "a phase off the circle is shown"),
          Need(w.coh >= 0 /\ w.coh <= One + Tol, "the shown coherence is outside 0..1"),
          Need(w.pend = w.pendsum, "the pending total is not that of the agents"),
          Need(w.target = s.target, "another target is shown"),
          Need(NearT(w.with, 15 * w.batches, 1) /\ NearT(w.sav, w.without - w.with, 1), "the shown prices are not those of the batches"),
          Need(w.just \/ w.last = 0 \/ w.age >= 499, "a batch that was just sent is not shown"),
          Need(~w.just \/ w.age <= 2500, "a batch is shown as just sent long after"),
          Need(w.own = -1 \/ (w.el <= w.own + 5 /\ w.el >= w.own - 3000), "the time shown is not that since the start or reset"),
          Need(w.peak >= w.true - Tol /\ w.peak >= s.peak - Tol /\ (w.paused \/ w.peak >= w.coh - Tol) /\ w.peak <= One + Tol, "the peak coherence is not the highest coherence seen"),
          Need(w.conv = (w.peak >= 700000) \/ w.peak \in 699998..700002, "the time to converge is known when it cannot be, or not when it must be"),
          Need(w.ttc >= 0 /\ (w.own = -1 \/ w.ttc <= w.own + 5000), "the time to converge is not within the run"),
          Need(w.paused = s.paused, "the snapshot tells the wrong thing about being paused")>>)
FrozenJ(a, b) == First(<<Need(a.pend = b.pend, "pending work changes while nothing should happen"),
                         Need(a.sent = b.sent, "batches are sent while nothing should happen"),
                         Need(a.batches = b.batches, "batches are processed while nothing should happen"),
                         Need(NearT(a.true, b.true, 2), "agents move while nothing should happen")>>)
ShownJ(a, b) == Need(a.ph = b.ph /\ a.coh = b.coh, "a paused simulation shows moving phases or coherence")
HoldJ(s, e) == First(<<SaneJ(s, e.a), SaneJ(s, e.b), IF s.paused \/ s.stopped \/ ~s.started THEN FrozenJ(e.a, e.b) ELSE "",
                       IF s.paused THEN ShownJ(e.a, e.b) ELSE "">>)
PauseJ(s, e) == First(<<HoldJ([s EXCEPT !.paused = TRUE], e),
                        IF s.paused \/ ~e.tight THEN "" ELSE
                        First(<<Need(NearT(e.a.coh, e.before, 150000), "the shown coherence is not that of the moment of pausing"),
                                Need(NearT(e.a.coh, e.a.phcoh, 150000), "the shown phases are not those of the moment of pausing")>>)>>)
ResumeJ(s, e) == First(<<Need(~e.paused, "the simulation stays paused"),
                         Need((s.started /\ ~s.stopped) => e.alive, "work does not continue after resuming")>>)
ResetJ(s, e) == First(<<Need(e.flag, "a reset is not shown"), SaneJ(s, e.w),
                        IF ~s.paused \/ ~e.settled THEN "" ELSE
                        First(<<Need(e.w.pend = 0 /\ e.w.sent = 0 /\ e.w.batches = 0 /\ e.w.with = 0 /\ e.w.without = 0 /\ e.w.queue = 0 /\ e.w.last = 0 /\ e.w.calls = 0, "a reset leaves counters or work behind"),
                                Need(e.w.ph = e.ph0 /\ e.w.coh = e.coh0, "a paused simulation shows moving phases or coherence"),
                                Need(e.moved \/ NearT(e.w.peak, e.w.true, 3), "a reset leaves the peak coherence behind"),
                               IF e.moved THEN "" ELSE Need(WorstIs(s.goal, e.q), "a reset does not put the agents in the goal's worst state")>>)>>)
DisruptJ(s, e) == First(<<Need(e.flag, "a disruption is not shown"),
                          IF ~s.paused \/ e.moved THEN "" ELSE
                          First(<<Need(FifthTurned(e.p, e.q), "a disruption does not turn exactly a fifth of the agents by half a turn"),
                                  Need(e.true >= s.target - 10000 \/ e.still, "the disruption is no longer shown although the target is not regained"),
                                  Need(e.true <= s.target + 10000 \/ e.cleared, "the disruption is shown although the target is regained")>>)>>)
\* flag shown between lo and hi ms after the latest action that raises it, with limit lim
FlagJ(e) == First(<<Need(e.hi > e.lim - 200 \/ e.shown, "a flag is lowered before its time"),
                    Need(e.lo < e.lim + 3000 \/ ~e.shown, "a flag outlives its time")>>)
TraceStep(s, e) ==
  CASE e.op = "start" -> OK([s EXCEPT !.started = TRUE])
    [] e.op = "pause" -> Ver([s EXCEPT !.paused = TRUE, !.peak = e.b.peak], <<For("C20", PauseJ(s, e))>>)
    [] e.op = "resume" -> Ver([s EXCEPT !.paused = FALSE], <<For("C20", ResumeJ(s, e))>>)
    [] e.op = "hold" -> Ver([s EXCEPT !.peak = e.b.peak], <<For("C20", HoldJ(s, e))>>)
    [] e.op = "reset" -> Ver([s EXCEPT !.peak = e.w.peak], <<For("C20", ResetJ([s EXCEPT !.peak = 0], e))>>)
    [] e.op = "disrupt" -> Ver(s, <<For("C20", DisruptJ(s, e))>>)
    [] e.op = "drive" -> Ver(s, <<For("C20", Need(e.moved, "agents are not driven after resuming"))>>)
    [] e.op = "flag" -> Ver(s, <<For("C20", FlagJ(e))>>)
    [] e.op = "stop" -> Ver([s EXCEPT !.stopped = TRUE], <<For("C20", Need(e.ended, "the simulation does not stop"))>>)
=============================================================================
