------------------------------ MODULE BudgetMC ------------------------------
EXTENDS Budget
CONSTANTS MaxB, Hi
VARIABLES b, held   \* held: what callers got and did not give back (capped releases may be lost)
Init == \E m \in -1..MaxB : b = NewBudget(m) /\ held = 0
Req == \E x \in -1..Hi : b' = Request(b, x) /\ held' = held + Grant(b, x)
Rel == \E x \in -1..Hi : b' = Release(b, x) /\ held' = Max2(0, held - Max2(0, x))
Next == Req \/ Rel
Spec == Init /\ [][Next]_<<b, held>>
Bounds == b.av \in 0..b.max
\* callers that give back only what they hold never lose anything
Conserved == held + b.av >= b.max
ReqOK == \A x \in -1..Hi : /\ Grant(b, x) >= 0 /\ Grant(b, x) <= b.av /\ (x > 0 => Grant(b, x) <= x)
                           /\ Request(b, x).av + Grant(b, x) = b.av
=============================================================================
