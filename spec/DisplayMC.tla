----------------------------- MODULE DisplayMC -----------------------------
(* The rules of the panels on a small circle, and the display as a machine:  *)
(* panels are rewritten one after the other under the display's lock, while  *)
(* the terminal is redrawn at any time.                                      *)
EXTENDS Display, TLC
VARIABLES d, given, chart, last, clock, printed
vars == <<d, given, chart, last, clock, printed>>
Cfgs  == [g : {Batch, Load, Rhythm}]
Snaps == [p : {0, 1, 157, 314, 471, 627}, paused : BOOLEAN]
Init == d = Fresh /\ given = Blank /\ chart = 0 /\ last = -1 /\ clock = 0 /\ printed = 0
SetC  == \E c \in Cfgs : d' = Set(d, c) /\ UNCHANGED <<given, chart, last, clock, printed>>
Wel   == d.cfg # Blank /\ d' = Welcome(d) /\ UNCHANGED <<given, chart, last, clock, printed>>
Upd   == d.cfg # Blank /\ \E s \in Snaps :
           /\ d' = Update(d, s) /\ given' = s
           /\ chart' = Min2(3, ChartNext(chart, s.paused))
           /\ LET yes == Prints(last, clock) IN last' = (IF yes THEN clock ELSE last) /\ printed' = (IF yes THEN printed + 1 ELSE printed)
           /\ UNCHANGED clock
Sum   == d' = Summary(d, [x |-> 1]) /\ UNCHANGED <<given, chart, last, clock, printed>>
Pass  == clock < 3000 /\ clock' = clock + 500 /\ UNCHANGED <<d, given, chart, last, printed>>
Next == SetC \/ Wel \/ Upd \/ Sum \/ Pass
Spec == Init /\ [][Next]_vars

\* a data panel never shows anything but the latest snapshot (or the summary)
Current  == d.data.op = "snap" => d.data.s = given
\* the text display is never flooded, and never silent for long while it is updated
Rate     == printed <= clock \div 1000 + 1
PausedKeeps == [][Upd /\ given'.paused => chart' = chart]_vars
Circle   == 0..TwoPi-1
\* workloads equally far before and after the beat look alike
Alike    == clock = 0 /\ printed = 0 => \A p \in Circle : LET q == Wrap(TwoPi - p) IN
              /\ \A g \in Goals \ {Consensus} : Marker(g, p) = Marker(g, q)
              /\ LateBin(p) = LateBin(q) /\ Dot(p) = Dot(q)
              /\ \A b \in BOOLEAN : Health(p, b) = Health(q, b)
              /\ (Drift(p) = "early" => Drift(q) = "late" \/ 2 * p = TwoPi)
\* the classes are quarters and half radians of the circle
Shares   == clock = 0 /\ printed = 0 =>
              /\ \A k \in 0..3 : Abs(4 * Cardinality({p \in Circle : Server(p) = k}) - TwoPi) <= 4
              /\ {Server(p) : p \in Circle} = 0..3
              /\ {Drift(p) : p \in Circle} = {"early", "ontime", "late"}
              /\ {Dot(p) : p \in Circle} = {"synced", "near", "far"}
              /\ \A g \in Goals : Cardinality({Marker(g, p) : p \in Circle}) = IF g = Consensus THEN 2 ELSE 3
\* the words rise with the coherence
Rise     == clock = 0 /\ printed = 0 => \A a, b \in 0..One : a <= b =>
              /\ (SyncWord(a) = "In sync!" => SyncWord(b) = "In sync!")
              /\ (LoadWord(b) = "BALANCED" => LoadWord(a) = "BALANCED")
              /\ (HardWord(a, FALSE) = "RESILIENT" => HardWord(b, FALSE) = "RESILIENT")
=============================================================================
