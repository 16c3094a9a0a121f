----------------------------- MODULE TrafficMC ------------------------------
(* One workload as it is built, for every outcome of its random draws: a      *)
(* generation ticker, a sending ticker, pausing, resetting, and a phase that  *)
(* is sometimes near the sending phase.  The state holds times to come and    *)
(* not the clock, so it is finite and every behaviour is covered without a    *)
(* horizon.  Time in units of Unit ms.                                        *)
EXTENDS Traffic, TLC
CONSTANTS Pat, Unit, MaxPend
VARIABLES left, step, tosend, burst, ends, pend, paused, near, since, act
vars == <<left, step, tosend, burst, ends, pend, paused, near, since, act>>
Intervals == CASE Pat = "high" -> {50, 75} [] Pat = "burst" -> {100} [] Pat = "mixed" -> {300} [] Pat = "sparse" -> {2000, 3500} [] OTHER -> {500}
Again == IF Pat = "mixed" THEN {200, 300, 900} ELSE {}
Lasts == {500, 1900}
SendEvery == IF Unit < 100 THEN 100 \div Unit ELSE 1
U(ms) == ms \div Unit
Cap == 200
None == [kind |-> "none", k |-> 0, gap |-> -1]
Init == /\ step \in {U(x) : x \in Intervals} /\ left = step /\ tosend = SendEvery /\ burst = FALSE /\ ends = 0 /\ pend = 0
        /\ paused = FALSE /\ near \in BOOLEAN /\ since = -1 /\ act = None
Tasks == LoTasks(Pat)..HiTasks(Pat)
Min(a, b) == IF a < b THEN a ELSE b
Make(k) == /\ pend' = Min(pend + k, MaxPend) /\ since' = 0 /\ act' = [kind |-> "make", k |-> k, gap |-> since]
Skip == UNCHANGED <<pend, since>> /\ act' = None
Keep == step' = step /\ left' = step
Gen == /\ left = 0
       /\ IF paused THEN Skip /\ Keep /\ UNCHANGED <<burst, ends>>
          ELSE CASE Pat = "burst" ->
                     /\ Keep
                     /\ IF ~burst THEN \/ burst' = TRUE /\ ends' \in {U(x) : x \in Lasts} /\ \E k \in Tasks : Make(k)
                                       \/ Skip /\ UNCHANGED <<burst, ends>>
                        ELSE IF ends = 0 THEN burst' = FALSE /\ UNCHANGED ends /\ Skip
                        ELSE UNCHANGED <<burst, ends>> /\ \E k \in Tasks : Make(k)
                [] Pat = "mixed" ->
                     /\ UNCHANGED <<burst, ends>>
                     /\ \/ Skip /\ Keep
                        \/ \E k \in Tasks, d \in Again : Make(k) /\ step' = U(d) /\ left' = U(d)
                [] Pat = "sparse" -> UNCHANGED <<burst, ends>> /\ Keep /\ (Skip \/ Make(1))
                [] OTHER -> UNCHANGED <<burst, ends>> /\ Keep /\ \E k \in Tasks : Make(k)
       /\ UNCHANGED <<tosend, paused, near>>
Send == /\ tosend = 0 /\ tosend' = SendEvery
        /\ IF ~paused /\ near /\ pend > 0 THEN pend' = 0 /\ act' = [None EXCEPT !.kind = "send"] ELSE UNCHANGED pend /\ act' = None
        /\ UNCHANGED <<left, step, burst, ends, paused, near, since>>
Tick == /\ left > 0 /\ tosend > 0 /\ left' = left - 1 /\ tosend' = tosend - 1
        /\ ends' = IF ends > 0 THEN ends - 1 ELSE 0
        /\ since' = IF since = -1 THEN -1 ELSE Min(since + 1, Cap)
        /\ act' = None /\ UNCHANGED <<step, burst, pend, paused, near>>
Control == /\ \/ paused' = ~paused /\ act' = None /\ UNCHANGED <<near, pend, burst, ends, since>>
              \/ near' = ~near /\ act' = None /\ UNCHANGED <<paused, pend, burst, ends, since>>
              \/ pend' = 0 /\ burst' = FALSE /\ ends' = 0 /\ since' = -1 /\ act' = [None EXCEPT !.kind = "reset"] /\ UNCHANGED <<paused, near>>
           /\ UNCHANGED <<left, step, tosend>>
Next == Gen \/ Send \/ Tick \/ Control
Spec == Init /\ [][Next]_vars
Shown == Activity(Pat, burst, pend, IF since = -1 THEN -1 ELSE since * Unit)
Sizes == act.kind = "make" => act.k >= LoTasks(Pat) /\ act.k <= HiTasks(Pat)
\* tasks are made in the pattern's rhythm; a reset forgets when the last were made
Rhythm == (act.kind = "make" /\ act.gap # -1) => act.gap * Unit >= LoGap(Pat) \/ act.gap = Cap
Calm == (Pat = "burst" /\ act.kind = "make") => burst
\* what is pending only grows, or goes at once
Accumulate == [][pend' < pend => pend' = 0 /\ act'.kind \in {"send", "reset"}]_vars
Still == [][paused => act'.kind \notin {"make", "send"}]_vars
\* what the display shows
ShownRight == /\ Pat \in {"high"} => Shown = "active"
              /\ Pat \in {"steady", "unset"} => Shown = "steady"
              /\ (Pat = "burst" /\ Shown = "quiet") => act.kind # "make"
              /\ (Pat = "sparse" /\ pend > 0) => Shown = "active"
              /\ (Pat = "mixed" /\ since = 0) => Shown = "active"
=============================================================================
