---------------------------- MODULE TrafficTrace ----------------------------
EXTENDS Traffic, TraceLib
\* since -1: when tasks were last made is not known (or never were, when fresh)
TraceInit0(h) == IF "pat" \in DOMAIN h
                 THEN [pat |-> h.pat, plain |-> h.plain, begun |-> FALSE, at |-> 0, pend |-> 0, sent |-> 0, burst |-> FALSE, act |-> "", near |-> FALSE, paused |-> FALSE,
                       made |-> -1, fresh |-> TRUE, clear |-> 0, makes |-> 0, over |-> 0, names |-> {}, keys |-> {}, count |-> 0, bstart |-> -1, nstart |-> 0, quiets |-> 0, bursts |-> 0]
                 ELSE [names |-> {}, keys |-> {}, count |-> 0, every |-> 0, factor |-> 0, coh |-> 2000000]
J(s, q) == Ver(s, <<For("C26", First(q))>>)
JP(s, q, p) == Ver(s, <<For("C26", First(q)), For("C20", First(p))>>)
Max2(a, b) == IF a > b THEN a ELSE b
\* the labels that can be shown
Labels(s, burst, pend, at) ==
  IF s.pat = "mixed" THEN
    IF s.made = -1 THEN (IF s.fresh THEN {"quiet"} ELSE {"quiet", "active", "steady"})
    ELSE {Activity("mixed", burst, pend, Max2(0, at - s.made + d)) : d \in {-3, 0, 3}}
  ELSE {Activity(s.pat, burst, pend, 0)}
SeenS(s, e) ==
  LET grew == e.pend - s.pend
      sent == e.sent - s.sent
      k == IF sent > 0 THEN e.pend ELSE IF s.begun THEN grew ELSE e.pend
      makes == k > 0
      gap == e.at - s.made
      n == [s EXCEPT !.begun = TRUE, !.at = e.at, !.pend = e.pend, !.sent = e.sent, !.burst = e.burst, !.act = e.act,
                     !.made = IF s.near THEN -1 ELSE IF makes THEN e.at ELSE @,
                     !.fresh = @ /\ ~makes /\ ~s.near /\ sent = 0,
                     !.makes = IF makes THEN @ + 1 ELSE @,
                     !.bstart = IF e.burst /\ ~s.burst THEN e.at ELSE IF e.burst THEN @ ELSE -1,
                     \* since when something has been pending while it could be sent
                     !.nstart = IF e.pend = 0 \/ sent > 0 THEN e.at ELSE IF s.pend = 0 THEN e.at ELSE @,
                     !.bursts = IF e.burst /\ ~s.burst THEN @ + 1 ELSE @, !.quiets = IF ~e.burst /\ s.burst THEN @ + 1 ELSE @]
      since == Max2(s.made, s.clear)
  IN  JP(n, <<Need(s.begun \/ (e.pend = 0 /\ e.sent = 0 /\ ~e.burst), "a workload does not start empty"),
            Need(sent \in {0, 1}, "sent batches are counted wrongly"),
            Need(sent = 0 \/ (s.near \/ s.pat = ""), "tasks are sent in the wrong phase"),
            Need(sent = 1 \/ grew >= 0, "pending tasks are lost"),
            Need(sent = 0 \/ e.pend = 0 \/ (e.pend >= LoTasks(s.pat) /\ e.pend <= HiTasks(s.pat)), "a batch does not take all pending tasks"),
            Need(~makes \/ (k >= LoTasks(s.pat) /\ k <= HiTasks(s.pat)), "tasks are made in the wrong number"),
            Need(~makes \/ s.near \/ s.made = -1 \/ gap >= LoGap(s.pat) - 1, "tasks are made too soon"),
            Need(s.near \/ s.paused \/ HiGap(s.pat) = 0 \/ e.at - since <= HiGap(s.pat) + 2, "tasks are made too late"),
            Need(~makes \/ s.pat # "burst" \/ e.burst, "tasks are made in the quiet phase"),
            Need(s.bstart = -1 \/ ~s.burst \/ e.burst \/ e.at - s.bstart >= 450, "a burst ends too soon"),
            Need(s.bstart = -1 \/ ~s.burst \/ e.at - s.bstart <= 2200, "a burst lasts too long"),
            Need(s.pat = "burst" \/ ~e.burst, "a burst is shown where there is none"),
            Need(~s.begun \/ s.near \/ s.act \in Labels(s, s.burst, s.pend, Max2(s.at, e.at - 1)), "the activity shown is wrong"),
            Need((s.near /\ s.pat = "mixed") \/ e.act \in Labels(n, e.burst, e.pend, e.at), "the activity shown is wrong")>>,
          <<Need(~s.paused \/ ~makes, "tasks are made while paused"), Need(~s.paused \/ sent = 0, "batches are sent while paused")>>)
\* tasks that could be sent are sent at the next look at the phase
SentJ(s, at) == <<Need(~(s.near /\ ~s.paused /\ s.pend > 0) \/ at - Max2(s.nstart, s.clear) <= 250, "pending tasks are not sent")>>
Ctl(s, e) == CASE e.op = "pause" -> J([s EXCEPT !.paused = TRUE, !.bstart = -1], SentJ(s, e.at))
               [] e.op = "resume" -> J([s EXCEPT !.paused = FALSE, !.clear = e.at, !.bstart = -1], <<>>)
               [] e.op = "reset" -> J([s EXCEPT !.pend = 0, !.sent = 0, !.burst = FALSE, !.begun = FALSE, !.act = "", !.nstart = e.at, !.fresh = TRUE,
                                                !.made = -1, !.clear = e.at, !.bstart = -1], SentJ(s, e.at))
               [] e.op = "phase" -> J([s EXCEPT !.near = e.near, !.made = -1, !.fresh = @ /\ ~s.near /\ ~e.near, !.clear = e.at], SentJ(s, e.at))
EndJ(s, e) ==
  <<Need(s.begun, "nothing is seen"),
    Need(~s.plain \/ HiGap(s.pat) = 0 \/ e.at - s.made <= HiGap(s.pat) + 2, "tasks are made too late"),
    Need(~s.plain \/ e.at < Forever(s.pat) \/ s.makes > 0, "no tasks are made"),
    Need(~(s.plain /\ s.pat = "burst" /\ e.at >= Forever("burst")) \/ (s.bursts > 0 /\ s.quiets > 0), "there are no bursts and quiet phases")>> \o SentJ(s, e.at)

---- \* tables
ModJ(e) ==
  LET mod(p) == (CHOOSE k \in 1..Len(e.rows) : e.rows[k].p = p)
      row(p) == e.rows[mod(p)]
      plain == e.n > 50 /\ e.n < 1000
      Named == PatternsOf \ {"unset"}
  IN  <<Need({e.rows[k].p : k \in 1..Len(e.rows)} = PatternsOf, "patterns are missing"),
        Need(\A p \in PatternsOf : row(p).mod >= 500 /\ row(p).mod <= 1500, "a coherence modifier is out of its range"),
        Need(\A p \in PatternsOf : row(p).q = Rating(row(p).mod), "a rating does not follow the modifier"),
        Need(\A p \in PatternsOf : row(p).rec = (row(p).mod >= 1200), "a recommendation does not follow the modifier"),
        Need(e.best \in Best(e.g), "the best pattern of a goal is not the documented one"),
        Need(~plain \/ \A p \in Named : row(p).mod <= row(e.best).mod, "the best pattern of a goal is not the best"),
        Need(row("unset").mod = 1000, "an open pattern changes the coherence"),
        Need(\A p \in Named : row(p).mod <= 1300 /\ (plain => Modifier(e.g, p) = row(p).mod), "a coherence modifier is not the documented one"),
        Need(\A p \in Named : plain \/ row(p).mod <= Modifier(e.g, p), "size improves a coherence modifier"),
        Need(e.fits = Fits(e.g, e.n), "a goal is recommended for sizes that do not suit it, or not for those that do")>>
KindsJ(e) == <<Need(Len(e.kinds) = 24, "kinds are missing"),
               Need(\A k \in 1..16 : e.kinds[k] = e.kinds[k + 8], "kinds of work are not taken in turn"),
               Need(Cardinality({e.kinds[k] : k \in 1..8}) = 8, "kinds of work are not distinct"),
               Need(e.icons, "a kind of work has no icon")>>
EntryS(s, e) == J([s EXCEPT !.names = @ \cup {e.name}, !.keys = @ \cup {e.key}],
                  <<Need(e.name # "" /\ e.name \notin {"Unknown", "unknown", "Custom Goal"} /\ e.name \notin s.names, "a name is missing or taken twice"),
                    Need(e.kind = "scale" \/ e.key \notin s.keys, "a key is taken twice"),
                    Need((e.key = "") = (e.kind = "scale" \/ e.n = "unset"), "a key is missing"),
                    Need(e.about, "a description is missing")>>)
Count(n) == CASE n = "tiny" -> 20 [] n = "small" -> 50 [] n = "medium" -> 200 [] n = "large" -> 1000 [] n = "huge" -> 2000
ScaleS(s, e) == J([s EXCEPT !.count = e.count, !.every = e.every, !.factor = e.factor, !.coh = e.coh],
                  <<Need(e.back = e.n, "a scale's agent count belongs to another scale"),
                    Need(e.count = Count(e.n), "a scale has another number of agents than documented"),
                    Need(e.count > s.count /\ e.every >= s.every /\ e.factor >= s.factor /\ e.coh < s.coh, "a larger scale is not larger, slower and looser"),
                    Need(e.every > 0 /\ e.factor >= 1000 /\ e.coh > 0 /\ e.coh <= 1000000, "a scale's defaults are out of range"),
                    Need(e.every2 = e.every, "a scale has two update intervals"),
                    Need(e.near > 0 /\ e.near < e.count, "a scale's neighbors do not fit in it")>>)
CountsJ(e) ==
  LET at(n) == e.sizes[n - e.from + 1]
      want(n) == CASE n <= 20 -> 1 [] n <= 50 -> 2 [] n <= 200 -> 3 [] n <= 1000 -> 4 [] OTHER -> 5
  IN  <<Need(\A n \in e.from..(e.from + Len(e.sizes) - 1) : at(n) = e.order[want(n)], "an agent count belongs to the wrong scale")>>
\* what a simulation's workloads do at first tells its pattern
OpenJ(e) ==
  LET best == CHOOSE x \in Best(e.g) : TRUE
      p == IF e.p = "unset" THEN best ELSE e.p
      b == {e.before[k] : k \in 1..Len(e.before)}
  IN  <<Need(b = {CASE p = "high" -> "active" [] p = "steady" -> "steady" [] OTHER -> "quiet"}, "a simulation does not run the pattern it should"),
        Need(e.burst = (p = "burst"), "a simulation does not run the pattern it should"),
        Need((p = "sparse") = ~e.early, "a simulation does not run the pattern it should"),
        Need(e.counts = <<2, 2, 2, 2, 3, 3, 3, 3>>, "workloads do not take the kinds of work in turn")>>
\* a simulation's swarm is that of its goal and scale: so many agents, moving at the goal's pace
PaceJ(e) == <<Need(e.agents = Count(e.n), "a simulation does not have the agents of its scale"),
              Need(\A k \in 1..Len(e.moved) : e.moved[k] >= 0, "a simulation shows another target"),
              Need(Len(e.moved) >= 1 /\ e.moved[1] = e.every /\ \A k \in 1..Len(e.moved) : e.moved[k] % e.every = 0, "a simulation does not move at the pace of its goal")>>
TraceStep(s, e) ==
  CASE e.op = "seen" -> SeenS(s, e)
    [] e.op \in {"pause", "resume", "reset", "phase"} -> Ctl(s, e)
    [] e.op = "end" -> J(s, EndJ(s, e))
    [] e.op = "over" -> J(s, <<Need(e.still, "work goes on after the end")>>)
    [] e.op = "mods" -> J(s, ModJ(e))
    [] e.op = "kinds" -> J(s, KindsJ(e))
    [] e.op = "entry" -> EntryS(s, e)
    [] e.op = "scale" -> ScaleS(s, e)
    [] e.op = "counts" -> J(s, CountsJ(e))
    [] e.op = "rest" -> J(s, <<Need(~e.ended \/ e.coh >= e.least - 5, "a simulation rests before its target")>>)
    [] e.op = "pace" -> J(s, PaceJ(e))
    [] e.op = "open" -> J(s, OpenJ(e))
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
