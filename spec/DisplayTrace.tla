---------------------------- MODULE DisplayTrace ----------------------------
(* Judges what was read from the screen of a real terminal display (or from  *)
(* the output of the text display) after each operation.  Numbers read from  *)
(* the screen come in tenths (money: cents); -99999999 stands for none.      *)
EXTENDS Display, TraceLib
None == -99999999
\* recorded phases are exact to W
W == 3
J(s, q) == Ver(s, <<For("C30", First(q))>>)
TraceInit0(h) == [d |-> Fresh, chart |-> [n |-> 0, tg |-> -1, look |-> 0], last |-> -1, name |-> "MINIMIZE API CALLS"]

\* --- numbers with rounding -----------------------------------------------------
\* shown (tenths) is v/10000 (v in parts of One, as a percentage) rounded to a tenth, or to a whole
Pct1(shown, v) == shown # None /\ NearT(shown * 1000, v, 505)
Pct0(shown, v) == shown # None /\ shown % 10 = 0 /\ NearT(shown * 1000, v, 5005)
\* shown (tenths of a per cent) is k of n, rounded to a whole
Part0(shown, k, n) == shown # None /\ shown % 10 = 0 /\ NearT(shown * n, 1000 * k, 5 * n + 1)
\* a/b cut to a whole, where a/b may have been computed a little too small
CutOK(x, a, b) == x = a \div b \/ (a % b = 0 /\ x = a \div b - 1)
Time(shown, u, ms) == IF ms < 60000 THEN u = "s" /\ (NearT(shown * 100, ms, 51) \/ (ms > 59949 /\ shown = 600))
                      ELSE u = "m" /\ NearT(shown * 6000, ms, 3005)

\* --- classes of phases, either way at a threshold ------------------------------------
Around(p) == {Wrap(p - W), p, Wrap(p + W)}
Sure(F(_), ph, k) == Cardinality({j \in 1..Len(ph) : \A x \in Around(ph[j]) : F(x) = k})
Can(F(_), ph, k)  == Cardinality({j \in 1..Len(ph) : \E x \in Around(ph[j]) : F(x) = k})
CountOK(F(_), ph, k, x) == Sure(F, ph, k) <= x /\ x <= Can(F, ph, k)
Zero(x) == IF x = None THEN 0 ELSE x \div 10
Kinds(s, w) == Cardinality({j \in 1..Len(s.act) : s.act[j] \in w})
N(s) == Len(s.ph)

---- \* the boxes
ConfigQ(c, scr) == <<Need(scr.goal = c.goal, "the goal is not the selected one"),
                     Need(scr.pat = c.pat, "the pattern is not the selected one"),
                     Need(scr.name = c.name, "the name is not the selected one")>>
\* where a pattern is poor or fair by quality
QMark(q) == CASE q \in {"Optimal", "Good"} -> "good" [] q = "Fair" -> "fair" [] q = "Poor" -> "poor" [] OTHER -> "-"
AdviceQ(c, scr) == <<Need(scr.el = None, "an elapsed time before the start"),
                     Need(scr.patword = c.quality, "the pattern is assessed in another way than the catalogue does"),
                     Need(c.pat < 0 \/ scr.patmark = QMark(c.quality), "the pattern's mark is not its assessment"),
                     Need(scr.scword = (IF c.rec THEN "Good" ELSE "Poor"), "the scale is assessed in another way than the catalogue does"),
                     Need(scr.scmark = (IF c.rec THEN "good" ELSE "poor"), "the scale's mark is not its assessment")>>
MenuQ(c, scr) == <<Need(scr.keys, "the menu lacks an action"),
                   Need(Range(scr.boldg) = {c.goal}, "the menu marks another goal"),
                   Need(Range(scr.boldp) = Range(c.good), "the menu recommends other patterns than the catalogue"),
                   Need(Range(scr.bolds) = Range(c.recs), "the menu recommends other scales than the catalogue")>>
RowQ(c, s, r, k) == <<Need(r.typ = s.typ[k], "another workload's name"),
                      Need(\E x \in Around(s.ph[k]) : r.mark = Marker(c.goal, x), "the sync marker is wrong"),
                      Need(r.q = s.q[k], "the queue is wrong"),
                      Need(r.over = (s.q[k] > 10), "the overload mark is wrong"),
                      Need(r.sent = s.qs[k], "the number of batches sent is wrong")>>
RowsQ(c, s, scr) == <<Need(Len(scr.rows) = Min2(10, N(s)), "not one row per workload"),
                      IF Len(scr.rows) # Min2(10, N(s)) THEN "" ELSE
                      LET bads == {k \in 1..Len(scr.rows) : First(RowQ(c, s, scr.rows[k], k)) # ""} IN
                      IF bads = {} THEN "" ELSE LET k == CHOOSE k \in bads : TRUE IN First(RowQ(c, s, scr.rows[k], k)),
                      Need(Zero(scr.more) = Max2(0, N(s) - 10), "the number of workloads not listed is wrong")>>
YesNo(b) == IF b THEN "YES" ELSE "NO"
FlagsQ(s, scr) == <<Need(scr.paused = YesNo(s.paused), "the pause flag is wrong"),
                    Need(scr.disrupted = YesNo(s.disrupted), "the disruption flag is wrong"),
                    Need(scr.reset = YesNo(s.reset), "the reset flag is wrong")>>
CostQ(s, scr) == <<Need(\A k \in 1..3 : scr.cost[k] = s.cost[k], "the costs or savings are wrong"),
                   Need(scr.cost[4] # None /\ NearT(scr.cost[4] * 10, s.cost[4], 6), "the share saved is wrong")>>

---- \* the metrics panel of each goal
Idle(s) == Kinds(s, {"quiet"})
Rush(s) == Kinds(s, {"burst", "active"})
MetricsOK(c, s, scr) ==
  LET g == c.goal  n == scr.n  co == s.co IN
  CASE g = Batch -> scr.mw = SyncWord(co) /\ Pct0(n[1], co) /\ n[2] = 10 * s.batch /\ n[3] = 10 * s.sent
                    /\ n[4] = (IF s.just THEN 10 * s.last ELSE None)
    [] g = Load -> scr.mw = LoadWord(co) /\ Pct1(n[1], One - co) /\ (N(s) = 0 \/ NearT(n[2] * N(s), 1000, N(s)))
    [] g = Consensus -> scr.mw = VoteWord(co) /\ Pct1(n[1], co) /\ n[2] = 10 * ((s.el * 2) \div 1000)
    [] g = Latency -> scr.mw = TimeWord(co) /\ n[1] = 100 /\ NearT(n[2] * 1000, 100000 + (One - co) \div 5, 505) /\ NearT(n[3] * 1000, (One - co) \div 10, 505)
    [] g = Energy -> N(s) = 0 \/ (scr.mw \in IdleWords(Idle(s), N(s)) /\ Part0(n[1], Idle(s), N(s))
                    /\ NearT(n[2] * N(s), 240 * Idle(s) + 120 * N(s), 5 * N(s) + 1))
    [] g = Rhythm -> scr.mw = BeatWord(co) /\ Pct1(n[1], co) /\ NearT(n[2] * 100, One - co, 505)
    [] g = Failure -> scr.mw = HardWord(co, s.disrupted) /\ Pct1(n[1], co)
                    /\ (IF s.disrupted THEN n[2] # None /\ NearT(n[2] * 100, s.since + 2500, 2551)
                        ELSE scr.mw2 = (IF Lev(co, 800) THEN "<1s" ELSE IF Lev(co, 600) THEN "~2s" ELSE "N/A"))
    [] OTHER -> n[3] = 10 * N(s) /\ n[2] = 10 * Rush(s)
                    /\ (N(s) = 0 \/ (scr.mw \in RushWords(co, Rush(s), N(s)) /\ Part0(n[1], Rush(s), N(s))))

---- \* the dynamics panel of each goal
\* every class of phases is counted right, and nobody twice
Counts(F(_), s, ks, xs) == /\ \A k \in 1..Len(ks) : CountOK(F, s.ph, ks[k], Zero(xs[k]))
                           /\ SumSeq([k \in 1..Len(xs) |-> Zero(xs[k])]) = N(s)
Square(xs) == SumSeq([k \in 1..Len(xs) |-> xs[k] * xs[k]])
\* four servers whose loads deviate by more than two (standard deviation)
Uneven(ls) == 4 * Square(ls) - SumSeq(ls) * SumSeq(ls) > 64
BarsOK(x, k, n) == CutOK(x, 20 * k, n)
ConsensusOK(s, scr) ==
  LET sure == [v \in 0..12 |-> Sure(Vote, s.ph, v)]
      can  == [v \in 0..12 |-> Can(Vote, s.ph, v)]
      lo == CHOOSE m \in {sure[v] : v \in 0..12} : \A v \in 0..12 : sure[v] <= m
      hi == CHOOSE m \in {can[v] : v \in 0..12} : \A v \in 0..12 : can[v] <= m
  IN \E m \in Max2(lo, 1)..hi : /\ Part0(scr.dn[1], m, N(s))
                       /\ BarsOK(scr.dn[2], m, N(s))
                       /\ scr.dw \in {IF a THEN "CONSENSUS REACHED" ELSE "Voting in progress" : a \in
                            IF 100 * m > 95 * N(s) THEN {TRUE} ELSE IF 100 * m = 95 * N(s) THEN {TRUE, FALSE} ELSE {FALSE}}
RhythmOK(s, scr) ==
  /\ scr.dn[5] = 10 * N(s) /\ scr.dn[4] # None
  /\ LET o == Zero(scr.dn[4]) IN
     /\ CountOK(Drift, s.ph, "ontime", o)
     /\ \E e \in Sure(Drift, s.ph, "early")..Can(Drift, s.ph, "early") :
          LET l == N(s) - o - e  top == Max2(Max2(e, o), l) IN
          /\ l >= 0 /\ CountOK(Drift, s.ph, "late", l)
          /\ CutOK(scr.dn[1], 15 * e, top) /\ CutOK(scr.dn[2], 15 * o, top) /\ CutOK(scr.dn[3], 15 * l, top)
TrafficOK(s, scr) ==
  LET idle == Idle(s)  busy == Kinds(s, {"burst"})  up == N(s) - idle IN
  /\ scr.dn[2] = 10 * idle /\ scr.dn[4] = 10 * busy /\ scr.dn[3] = 10 * (up - busy)
  /\ (N(s) = 0 \/ (Part0(scr.dn[1], up, N(s)) /\ BarsOK(scr.dn[5], up, N(s)) /\ scr.dw \in ScaleWords(up, N(s))))
  /\ (NearT(s.co * 10, s.tg * 9, 10) \/ scr.dw2 = (IF s.co >= s.tg THEN "synchronized" ELSE IF s.co * 10 >= s.tg * 9 THEN "learning" ELSE "scattered"))
\* the colour of the k-th column
HueOK(s, k, hue) ==
  IF NearT(s.mm, (3 * One) \div 10, 5) THEN TRUE
  ELSE IF s.mm < (3 * One) \div 10 THEN \E x \in Around(s.ph[k]) : hue = Third(x) \/ (hue = "magenta" /\ CircDist(x, TwoPi \div 2) <= W)
  ELSE LET thr == (31416 * ((One - s.mm) \div 100)) \div 100 IN
       NearT(s.dev[k], thr, 500) \/ hue = (IF s.dev[k] < thr THEN "green" ELSE "red")
WavesOK(s, scr) ==
  /\ Pct1(scr.sync, s.co) /\ scr.dw = (IF Lev(s.co, 900) THEN "BATCHING" ELSE "-")
  /\ \A k \in 1..35 : IF k > N(s) THEN scr.dn[k] = 0
       ELSE /\ \E x \in {s.sin[k] - 2, s.sin[k], s.sin[k] + 2} : scr.dn[k] = Clamp(((x + One) * 4) \div One, 0, 8)
            /\ (scr.dn[k] = 0 \/ HueOK(s, k, scr.hues[k]))
DynamicsOK(c, s, scr) ==
  LET g == c.goal IN
  CASE g = Batch -> WavesOK(s, scr)
    [] g = Load -> /\ \A k \in 1..4 : scr.dn[k] # None
                   /\ Counts(Server, s, <<0, 1, 2, 3>>, scr.dn)
                   /\ scr.dw = (IF Uneven([k \in 1..4 |-> scr.dn[k] \div 10]) THEN "IMBALANCED" ELSE "BALANCED")
    [] g = Consensus -> N(s) = 0 \/ ConsensusOK(s, scr)
    [] g = Latency -> (\A k \in 1..5 : scr.dn[k] # None) /\ Counts(LateBin, s, <<0, 1, 2, 3, 4>>, scr.dn)
    [] g = Energy -> /\ scr.dn[2] = 10 * Idle(s) /\ scr.dn[3] = 10 * (N(s) - Idle(s))
                     /\ (N(s) = 0 \/ (Part0(scr.dn[1], Idle(s), N(s)) /\ BarsOK(scr.dn[4], Idle(s), N(s))
                         /\ scr.dw \in {IF a THEN "EFFICIENT" ELSE "HIGH DRAIN" : a \in Above(Idle(s), N(s), 70)}))
    [] g = Rhythm -> N(s) = 0 \/ RhythmOK(s, scr)
    [] g = Failure -> /\ scr.dn[1] # None
                      /\ LET H(p) == Health(p, s.disrupted) IN Counts(H, s, <<"healthy", "degraded", "failed">>, scr.dn)
                      /\ scr.dw = (IF s.disrupted THEN "RECOVERING" ELSE IF Zero(scr.dn[1]) = N(s) THEN "FULLY RESILIENT" ELSE "-")
    [] OTHER -> TrafficOK(s, scr)

---- \* movement and gauges
Seen20(s) == SubSeq(s.ph, 1, Min2(20, N(s)))
VisOK(s, scr) == LET ph == Seen20(s) IN
  /\ scr.vis[1] = 1
  /\ scr.vis[2] <= Can(Dot, ph, "synced") /\ scr.vis[3] <= Can(Dot, ph, "near") /\ scr.vis[4] <= Can(Dot, ph, "far")
  /\ (Len(ph) = 1 => scr.vis[2] + scr.vis[3] + scr.vis[4] <= 1)
\* the percentage (in tenths) shown for v, in parts of One; for k of n
GaugeIs(x, v)     == x # None /\ x % 10 = 0 /\ CutOK(x \div 10, v, One \div 100)
GaugePart(x, k, n) == n = 0 \/ (x # None /\ x % 10 = 0 /\ CutOK(x \div 10, 100 * k, n))
Hue(scr, h) == scr.curhue = (IF scr.cur = 0 THEN "-" ELSE h)
GaugeOK(c, s, scr) ==
  LET g == c.goal  x == scr.cur \div 10 IN
  CASE g = Batch -> scr.curlab = "Sync Level" /\ scr.tgtlab = "Target" /\ GaugeIs(scr.cur, s.co) /\ GaugeIs(scr.tgt, s.tg)
                    /\ Hue(scr, IF s.co >= s.tg THEN "green" ELSE "red")
    [] g = Load -> scr.curlab = "Distribution" /\ scr.tgtlab = "Target Spread" /\ GaugeIs(scr.cur, One - s.co) /\ GaugeIs(scr.tgt, One - s.tg)
                    /\ Hue(scr, IF s.co > One \div 2 THEN "red" ELSE "green")
    [] g = Consensus -> scr.curlab = "Agreement" /\ scr.tgtlab = "Consensus" /\ GaugeIs(scr.cur, s.co) /\ scr.tgt = 950
                    /\ Hue(scr, IF x >= 95 THEN "green" ELSE IF x >= 80 THEN "yellow" ELSE "red")
    [] g \in {Latency, Rhythm} -> scr.curlab = (IF g = Latency THEN "Predictability" ELSE "Phase Lock") /\ scr.tgtlab = "Target"
                    /\ GaugeIs(scr.cur, s.co) /\ GaugeIs(scr.tgt, s.tg)
                    /\ Hue(scr, IF scr.cur >= scr.tgt THEN "green" ELSE "red")
    [] g = Energy -> N(s) = 0 \/ (scr.curlab = "Idle %" /\ scr.tgtlab = "Target Idle" /\ GaugePart(scr.cur, Idle(s), N(s)) /\ scr.tgt = 700
                    /\ Hue(scr, IF x >= 70 THEN "green" ELSE IF x >= 50 THEN "yellow" ELSE "red"))
    [] g = Failure -> scr.curlab = "System Health" /\ scr.tgtlab = "Healthy" /\ scr.tgt = 800
                    /\ (IF s.disrupted THEN \E y \in {x * 20, x * 20 + 10} : GaugeIs(y, s.co) ELSE GaugeIs(scr.cur, s.co))
                    /\ Hue(scr, IF x >= 80 /\ ~s.disrupted THEN "green" ELSE IF x >= 60 THEN "yellow" ELSE "red")
    [] OTHER -> N(s) = 0 \/ (scr.curlab = "Utilization" /\ scr.tgtlab = "Optimal" /\ GaugePart(scr.cur, Rush(s), N(s)) /\ scr.tgt = 600
                    /\ Hue(scr, IF x >= 40 /\ x <= 80 THEN "green" ELSE IF x > 90 THEN "red" ELSE "yellow"))

---- \* the chart of the coherences: how many points, and the same look while nothing is added
ChartS(h, s, scr) == [n |-> ChartNext(h.n, s.paused), tg |-> s.tg, look |-> scr.chart[1]]
ChartQ(h, s, scr) == LET n == ChartNext(h.n, s.paused) IN
  <<Need(h.tg # s.tg \/ ~s.paused \/ scr.chart[1] = h.look, "the chart goes on while paused"),
    Need(scr.chart[2] <= 10 * Max2(0, n - 1), "the chart has points that nobody reported"),
    Need(n > 12 \/ scr.chart[2] = 10 * Max2(0, n - 1), "the chart lacks points")>>

---- \* the operations
Alive(e) == Need(e.ok, "the display fails")
UpdateQ(c, s, scr) == ConfigQ(c, scr)
   \o <<Need(Time(scr.el, scr.elu, s.el), "the elapsed time is wrong")>>
   \o RowsQ(c, s, scr) \o FlagsQ(s, scr) \o CostQ(s, scr) \o MenuQ(c, scr)
   \o <<Need(MetricsOK(c, s, scr), "the metrics panel is wrong"),
        Need(DynamicsOK(c, s, scr), "the dynamics panel is wrong"),
        Need(VisOK(s, scr), "the movement panel is wrong"),
        Need(GaugeOK(c, s, scr), "a gauge is wrong")>>
\* what does not depend on the goal stays as drawn
KeptQ(d, scr) == IF d.data.op = "snap" THEN RowsQ(d.data.c, d.data.s, scr) \o FlagsQ(d.data.s, scr) \o CostQ(d.data.s, scr)
                 ELSE <<Need(scr.rows = <<>> /\ scr.cost[1] = None, "workloads are shown that nobody reported")>>
SumOK(st0, e) == /\ NearT(e.sum[1], 10 * st0.calls, 0) /\ NearT(e.sum[2], 10 * st0.batches, 0) /\ NearT(e.sum[3] * 10, st0.avg, 6)
                 /\ Pct1(e.sum[4], st0.peak)
SummaryQ(e) == <<Need(SumOK(e.stats, e), "the summary is wrong"),
                 Need(Time(e.sum[5], e.sumu, e.stats.conv), "the summary's time to converge is wrong"),
                 Need(e.scr.rows = <<>> /\ e.scr.cost[1] = None /\ e.scr.vis = <<0, 0, 0, 0>>, "old data stays beside the summary")>>
TUpdateQ(s, e) ==
  LET p == Prints(s.last, e.at) g == e.snap IN
  <<Need(e.any = p /\ e.lines = (IF p THEN 1 ELSE 0), "not one line at most once a second"),
    Need(e.lines # 1 \/ (IF g.el < 60000 THEN e.u = "s" /\ NearT(e.shown[1] * 1000, g.el, 501) ELSE e.u = "m" /\ NearT(e.shown[1] * 60000, g.el, 30001)), "the elapsed time is wrong"),
    Need(e.lines # 1 \/ (Pct1(e.shown[2], g.co) /\ e.shown[3] = g.cost[3] /\ NearT(e.shown[4] * 10, g.cost[4], 6) /\ e.shown[5] = g.sent), "the numbers printed are wrong")>>
TSummaryQ(e) == <<Need(SumOK(e.stats, e), "the summary is wrong"),
                  Need(e.sum[5] = e.stats.savings /\ NearT(e.sum[6] * 10, e.stats.pct, 6), "the summary's savings are wrong")>>

TraceStep(s, e) ==
  CASE e.op = "cfg" -> J([s EXCEPT !.d = Set(@, [goal |-> e.goal, scale |-> e.scale, pat |-> e.pat, name |-> e.name, quality |-> e.quality, good |-> e.good, rec |-> e.rec, recs |-> e.recs])],
                         <<Alive(e)>> \o MenuQ(e, e.scr) \o KeptQ(s.d, e.scr))
    [] e.op = "welcome" -> J([s EXCEPT !.d = Welcome(@)], <<Alive(e)>> \o ConfigQ(s.d.cfg, e.scr) \o AdviceQ(s.d.cfg, e.scr) \o KeptQ(s.d, e.scr))
    [] e.op = "update" -> J([s EXCEPT !.d = Update(@, e.snap), !.chart = ChartS(@, e.snap, e.scr)],
                            <<Alive(e)>> \o UpdateQ(s.d.cfg, e.snap, e.scr) \o ChartQ(s.chart, e.snap, e.scr))
    [] e.op = "summary" -> J([s EXCEPT !.d = Summary(@, e.stats)], <<Alive(e)>> \o SummaryQ(e))
    [] e.op = "tcfg" -> J([s EXCEPT !.name = e.name], <<>>)
    [] e.op = "twelcome" -> J(s, <<Need(e.title = s.name, "the title is not the selected one")>>)
    [] e.op = "tupdate" -> J([s EXCEPT !.last = IF Prints(@, e.at) THEN e.at ELSE @], TUpdateQ(s, e))
    [] e.op = "tsummary" -> J(s, TSummaryQ(e))
    [] e.op = "trun" -> J(s, <<Need(e.ran = "true 1000", "the display does not run until it is told to end")>>)
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
