---------------------------- MODULE WorkPoolTrace ----------------------------
(* Validates what was seen of a real pool each time nothing moved any more:   *)
(* the running jobs, how often every job was run, calls still waiting.        *)
EXTENDS WorkPool, TraceLib
TraceInit0(h) == [w |-> h.w, held |-> {}, free |-> {}, stop |-> FALSE]
LookJ(s, o) ==
  LET run == Range(o.run) IN
  First(<<Need(\A j \in 1..Len(o.n) : o.n[j] <= 1, "a job is run twice"),
          Need(Len(o.run) <= s.w /\ o.peak <= s.w, "more jobs run at the same time than there are workers"),
          Need(run \subseteq s.held, "a job that was let go does not end"),
          IF s.stop THEN
            First(<<Need(run # {} \/ o.left = 0, "a worker stays after the stop although its job has ended"),
                    Need(o.left <= Len(o.run) + 1, "an idle worker stays after the stop")>>)
          ELSE
            First(<<Need(Len(o.run) = Busy(s), "a job waits although a worker is free"),
                    Need(Room(s) => \A j \in s.free : o.n[j] = 1, "a job is lost or held up by a slow one"),
                    Need(Cardinality(s.held) > s.w \/ (Cardinality(s.held) = s.w /\ s.free # {}) \/ o.wait = 0, "a submission does not return although a worker is free")>>)>>)
BurstJ(s, e) == First(<<Need(e.never = 0, "a job is lost"), Need(e.twice = 0, "a job is run twice"),
                        Need(e.peak <= s.w, "more jobs run at the same time than there are workers"),
                        Need(e.left = 0, "a worker stays after the stop")>>)
TraceStep(s, e) ==
  CASE e.op = "job"  -> LET n == [s EXCEPT !.held = @ \cup {e.j}] IN Ver(n, <<For("C21", LookJ(n, e.o))>>)
    [] e.op = "go"   -> LET n == [s EXCEPT !.held = @ \ {e.j}, !.free = @ \cup {e.j}] IN Ver(n, <<For("C21", LookJ(n, e.o))>>)
    [] e.op = "stop" -> LET n == [s EXCEPT !.stop = TRUE] IN Ver(n, <<For("C21", LookJ(n, e.o))>>)
    [] e.op = "burst" -> Ver(s, <<For("C21", BurstJ(s, e))>>)
=============================================================================
