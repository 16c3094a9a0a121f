------------------------------ MODULE Display ------------------------------
(* What the displays show.  A terminal display has a configuration (goal,    *)
(* scale, request pattern, name) and shows the latest snapshot it was given; *)
(* before the first one the data panels are blank.  Whatever a panel says    *)
(* about a workload's timing depends only on where its phase lies on the     *)
(* circle relative to the shared beat (phase 0).  Anchors:                   *)
(* simulations/display/display.go, text_display.go.                          *)
EXTENDS Base
\* RadN units make RadD milliradians
CONSTANTS RadN, RadD
Rad(m) == (m * RadN) \div RadD

Batch == 0  Load == 1  Consensus == 2  Latency == 3  Energy == 4  Rhythm == 5  Failure == 6  Traffic == 7
Goals == 0..7

\* --- timing of one workload -------------------------------------------------
\* signed way from the beat, in -Pi..Pi
Off(p) == CircDiff(p, 0)
Near1(p, at, m) == CircDist(p, at) < Rad(m)
Quarter(k) == (k * TwoPi) \div 4
\* the colour of the sync marker
Marker(g, p) ==
  CASE g \in {Load, Failure} -> IF Near1(p, 0, 500) THEN "red"
                                ELSE IF \E k \in 1..3 : Near1(p, Quarter(k), 500) THEN "green" ELSE "yellow"
    [] g = Energy -> IF Near1(p, 0, 300) THEN "yellow" ELSE IF Near1(p, Quarter(2), 500) THEN "green" ELSE "red"
    [] g = Consensus -> IF Near1(p, 0, 500) \/ Near1(p, Rad(2000), 500) \/ Near1(p, Rad(4000), 500) THEN "green" ELSE "yellow"
    [] OTHER -> IF Near1(p, 0, 500) THEN "green" ELSE IF Near1(p, 0, 1000) THEN "yellow" ELSE "red"
\* the quarter of the circle, counted from the point opposite the beat
Server(p) == Min2(3, (4 * (2 * Off(p) + TwoPi)) \div (2 * TwoPi))
Vote(p)   == Wrap(p) \div Rad(500)
LateBin(p) == LET l == Rad(10000) + 5 * CircDist(p, 0) IN Min2(4, l \div Rad(10000))
Drift(p)  == IF CircDist(p, 0) < Rad(100) THEN "ontime" ELSE IF Off(p) < 0 THEN "early" ELSE "late"
Health(p, dis) == IF dis /\ CircDist(p, 0) > Rad(2000) THEN "failed" ELSE IF CircDist(p, 0) > Rad(1000) THEN "degraded" ELSE "healthy"
Dot(p)    == IF CircDist(p, 0) < Rad(500) THEN "synced" ELSE IF CircDist(p, 0) < Rad(1000) THEN "near" ELSE "far"
Third(p)  == LET k == (3 * (2 * Off(p) + TwoPi)) \div (2 * TwoPi) IN IF k = 0 THEN "red" ELSE IF k = 1 THEN "yellow" ELSE IF k = 2 THEN "cyan" ELSE "magenta"
\* phases whose class may be decided either way by rounding
Edge(p, w) == \E x \in {p - w, p + w} : \E g \in Goals :
                 Marker(g, x) # Marker(g, p) \/ Server(x) # Server(p) \/ LateBin(x) # LateBin(p) \/ Drift(x) # Drift(p)
                 \/ Health(x, TRUE) # Health(p, TRUE) \/ Dot(x) # Dot(p) \/ Third(x) # Third(p)
VoteEdge(p, w) == Vote(p - w) # Vote(p) \/ Vote(p + w) # Vote(p)

\* --- words of the panels, by coherence (c), in parts of One -------------------
Lev(c, m) == c >= (m * One) \div 1000
SyncWord(c) == IF Lev(c, 900) THEN "In sync!" ELSE IF Lev(c, 700) THEN "Syncing..." ELSE "Not synced"
LoadWord(c) == IF c > One \div 2 THEN "IMBALANCED" ELSE IF c > (3 * One) \div 10 THEN "FAIR" ELSE "BALANCED"
VoteWord(c) == IF Lev(c, 950) THEN "CONSENSUS!" ELSE IF Lev(c, 800) THEN "CONVERGING" ELSE "NO CONSENSUS"
TimeWord(c) == IF Lev(c, 900) THEN "PREDICTABLE" ELSE IF Lev(c, 700) THEN "FAIR" ELSE "UNPREDICTABLE"
BeatWord(c) == IF Lev(c, 900) THEN "ON SCHEDULE" ELSE IF Lev(c, 700) THEN "DRIFTING" ELSE "OFF SCHEDULE"
HardWord(c, dis) == IF dis THEN "RECOVERING" ELSE IF Lev(c, 800) THEN "RESILIENT" ELSE IF Lev(c, 600) THEN "PARTIAL" ELSE "VULNERABLE"
\* k of n are idle (or busy): words may go either way exactly on a threshold
Above(k, n, pct) == IF 100 * k > pct * n THEN {TRUE} ELSE IF 100 * k = pct * n THEN {TRUE, FALSE} ELSE {FALSE}
IdleWords(k, n) == {IF a THEN "EFFICIENT" ELSE IF b THEN "MODERATE" ELSE "HIGH DRAIN" : a \in Above(k, n, 70), b \in Above(k, n, 50)}
RushWords(c, k, n) == {IF Lev(c, 800) /\ a THEN "RESPONSIVE" ELSE IF Lev(c, 600) THEN "ADAPTING" ELSE "SLOW" : a \in Above(k, n, 30)}
ScaleWords(k, n) == {IF a THEN "SCALE UP" ELSE IF ~b THEN "SCALE DOWN" ELSE "OPTIMAL" : a \in Above(k, n, 80), b \in {~x : x \in Above(n - k, n, 70)}}

\* --- the display ----------------------------------------------------------------
\* cfg: the configuration; box: what the configuration box shows; data: the snapshot shown
Blank == [op |-> "blank"]
Fresh == [cfg |-> Blank, box |-> Blank, data |-> Blank, notes |-> Blank]
Set(d, c)     == [d EXCEPT !.cfg = c]
Welcome(d)    == [d EXCEPT !.box = [op |-> "welcome", c |-> d.cfg], !.notes = d.cfg]
Update(d, s)  == [d EXCEPT !.box = [op |-> "time", c |-> d.cfg], !.data = [op |-> "snap", c |-> d.cfg, s |-> s]]
Summary(d, s) == [d EXCEPT !.data = [op |-> "sum", s |-> s]]
\* the coherence chart keeps the last Points coherences reported while not paused
Points == 50
ChartNext(n, paused) == IF paused THEN n ELSE Min2(Points, n + 1)
\* --- the text display: prints at most once per second ------------------------------
Prints(last, at) == last < 0 \/ at - last >= 1000
=============================================================================
