------------------------------- MODULE SyncMC -------------------------------
(* The supervision of a continuous run against an arbitrary environment that *)
(* changes the measurement of the agents at any instant.                     *)
EXTENDS Sync
CONSTANTS C, U, Gap, Fac, Horizon
VARIABLES now, s, m, bad, started
vars == <<now, s, m, bad, started>>
h == [size |-> 60, via |-> "new", goal |-> 800000, tols |-> <<10000, 10000, 10000>>, pdt |-> 100000, pcg |-> 850000,
      high |-> 900000, fac |-> Fac, minv |-> 400000, margin |-> 950000, sdrop |-> 50000, ldrop |-> 120000,
      gap |-> Gap, C |-> C, U |-> U]
Ms == {[coh |-> c, pf |-> p, fq |-> One, conv |-> One - p] : c \in {100000, 600000, 790000, 950000}, p \in {0, 900000}}
Init == /\ now = 0 /\ m \in Ms /\ bad = 0 /\ started = FALSE
        /\ s = [act |-> TRUE, at |-> 0, n |-> 0, last |-> m.coh, peak |-> 0, since |-> 0]
IsCheck == now % C = 0
IsTick  == s.act /\ now > s.at /\ (now - s.at) % U = 0
Acceptable == Need3(h, s, IF m.coh > s.peak THEN m.coh ELSE Decay(s.peak), m.coh) = "no"
\* one instant: an update of the attempt, then a check, then time passes and
\* the environment may change the agents
Next == /\ now < Horizon
        /\ now' = now + 1
        /\ \E s1 \in (IF IsTick THEN {r.s : r \in TickAt(h, s, m)} ELSE {s}) :
             /\ s' \in (IF IsCheck /\ now > 0 THEN CheckAt(h, s1, m, now) ELSE {s1})
             /\ started' = (s'.at = now /\ now > 0 /\ s'.act)
             /\ bad' = IF m.coh < 400000 /\ ~s1.act /\ ~started' THEN bad + 1 ELSE 0
        /\ m' \in Ms
Spec == Init /\ [][Next]_vars
\* an attempt never takes more updates than its budget
Bounded == s.n <= MaxOf(Budgets(h)) /\ MaxOf(Budgets(h)) <= 1000
\* a coherence that stays below the minimum is answered by an attempt
Recovers == bad <= Gap + C + 1
\* attempts are at least the minimum interval apart
Spaced == [][s'.since # s.since => now - s.since > Gap]_vars
\* no attempt starts while the coherence is acceptable, and none while one is under way
OnlyWhenNeeded == [][s'.since # s.since => (~Acceptable /\ IsCheck)]_vars
\* success is only ever declared on a measurement that reached the target
OnlyAchieved == [][(s.act /\ ~s'.act /\ s'.n = s.n) => (Achieved3(h, m) # "no" /\ m.coh >= TargetOf(h) - 20000)]_vars
=============================================================================
