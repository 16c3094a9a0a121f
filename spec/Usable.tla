------------------------------- MODULE Usable -------------------------------
(* Scales, coherence limits and the tuning of goal configurations.           *)
EXTENDS Config
Scales == <<"tiny", "small", "medium", "large", "huge">>
Count == [tiny |-> 20, small |-> 50, medium |-> 200, large |-> 1000, huge |-> 2000]
Cent(x) == x * (One \div 100)
Target == [tiny |-> Cent(90), small |-> Cent(85), medium |-> Cent(75), large |-> Cent(65), huge |-> Cent(55)]
\* the smallest scale that holds n agents, the largest one otherwise
ScaleOf(n) == IF \E k \in 1..5 : n <= Count[Scales[k]]
              THEN Scales[CHOOSE k \in 1..5 : n <= Count[Scales[k]] /\ \A j \in 1..(k - 1) : n > Count[Scales[j]]]
              ELSE "huge"
OrderedLimits(l) == l.rec >= 0 /\ l.rec <= l.pr /\ l.pr <= l.th /\ l.th <= One
\* the target a swarm works toward, given the practical limit of its size
Effective(c, l) == Min2(c, l.pr)
\* a configuration a run can work with
Workable(g) == ValidGoal(g) /\ g.iter >= One /\ \A k \in 1..3 : g.tol[k] >= 0 /\ g.tol[k] < One
=============================================================================
