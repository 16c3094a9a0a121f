------------------------------ MODULE Traffic -------------------------------
(* Request patterns: when a workload makes tasks, how many, and what activity *)
(* it shows.  Times in ms.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
PatternsOf == {"unset", "high", "burst", "steady", "mixed", "sparse"}
\* tasks made at once
LoTasks(p) == CASE p = "high" -> 2 [] p = "burst" -> 3 [] OTHER -> 1
HiTasks(p) == CASE p = "high" -> 4 [] p = "burst" -> 7 [] p = "mixed" -> 3 [] OTHER -> 1
\* shortest and longest time between two makings of tasks; 0: no longest
LoGap(p) == CASE p = "high" -> 50 [] p = "burst" -> 100 [] p = "mixed" -> 200 [] p = "sparse" -> 2000 [] OTHER -> 500
HiGap(p) == CASE p = "high" -> 99 [] p \in {"steady", "unset"} -> 500 [] OTHER -> 0
\* how long a workload can be without any task at all before it is not this
\* pattern any more (random gaps: practically impossible)
Forever(p) == CASE p = "sparse" -> 190000 [] p = "burst" -> 30000 [] p = "mixed" -> 40000 [] OTHER -> HiGap(p)
\* the activity shown, given burst mode, pending tasks and ms since tasks were made (-1: never)
Activity(p, burst, pend, since) ==
  CASE p = "high" -> "active"
    [] p = "burst" -> IF burst THEN "burst" ELSE "quiet"
    [] p = "sparse" -> IF pend > 0 THEN "active" ELSE "quiet"
    [] p = "mixed" -> IF since = -1 \/ since > 1000 THEN "quiet" ELSE IF since < 200 THEN "active" ELSE "steady"
    [] OTHER -> "steady"
\* the best pattern per goal, and the thresholds (in thousandths) of the ratings
Best(g) == CASE g = "batch" -> {"high"} [] g = "load" -> {"steady"} [] g = "consensus" -> {"steady"} [] g = "latency" -> {"high"}
             [] g = "energy" -> {"sparse"} [] g = "rhythm" -> {"steady"} [] g = "failure" -> {"mixed"} [] g = "traffic" -> {"burst"}
             [] OTHER -> {"steady"}
Rating(m) == IF m >= 1300 THEN "optimal" ELSE IF m >= 1200 THEN "excellent" ELSE IF m >= 1000 THEN "good" ELSE IF m >= 800 THEN "fair" ELSE "poor"
\* the coherence modifiers, in thousandths, before size is looked at
Modifier(g, p) ==
  CASE g = "batch" -> (CASE p \in {"high", "burst"} -> 1300 [] p = "mixed" -> 1200 [] p = "sparse" -> 700 [] OTHER -> 1000)
    [] g = "load" -> (CASE p \in {"high", "steady"} -> 1300 [] p = "mixed" -> 1100 [] p = "burst" -> 900 [] p = "sparse" -> 600 [] OTHER -> 1000)
    [] g = "consensus" -> (CASE p = "steady" -> 1300 [] p = "mixed" -> 900 [] p \in {"burst", "sparse"} -> 600 [] OTHER -> 1000)
    [] g = "latency" -> (CASE p = "high" -> 1300 [] p = "steady" -> 1200 [] p = "burst" -> 800 [] p = "mixed" -> 900 [] p = "sparse" -> 600 [] OTHER -> 1000)
    [] g = "energy" -> (CASE p = "sparse" -> 1300 [] p = "burst" -> 1200 [] p = "steady" -> 900 [] p = "mixed" -> 800 [] p = "high" -> 600 [] OTHER -> 1000)
    [] g = "rhythm" -> (CASE p = "steady" -> 1300 [] p = "high" -> 1100 [] p = "mixed" -> 900 [] p = "burst" -> 800 [] p = "sparse" -> 700 [] OTHER -> 1000)
    [] g = "failure" -> (CASE p = "mixed" -> 1300 [] p = "high" -> 1200 [] p = "burst" -> 1100 [] p = "sparse" -> 600 [] OTHER -> 1000)
    [] g = "traffic" -> (CASE p = "burst" -> 1300 [] p = "mixed" -> 1200 [] p = "steady" -> 800 [] p = "sparse" -> 600 [] OTHER -> 1000)
\* the sizes a goal suits
Fits(g, n) == CASE g \in {"load", "failure"} -> n >= 20 [] g = "consensus" -> n >= 50 /\ n <= 1000
                [] g \in {"latency", "energy"} -> n <= 200 [] g = "traffic" -> n >= 20 /\ n <= 1000 [] OTHER -> TRUE
=============================================================================
