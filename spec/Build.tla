------------------------------- MODULE Build --------------------------------
(* Agents built from a configuration.  A configuration c names the four      *)
(* components (dm, gm, rm, st) and gives the starting values; a zero means   *)
(* the default.  Quantities are in 1/One, durations in the unit Ms per ms.   *)
EXTENDS Share
CONSTANTS Ms
Deciders   == {"", "simple", "adaptive"}
Goals      == {"", "weighted"}
Budgets    == {"", "token"}
Strategies == {"", "phase_nudge", "frequency_lock", "energy_aware", "adaptive", "pulse"}
Known4(c) == c.dm \in Deciders /\ c.gm \in Goals /\ c.rm \in Budgets /\ c.st \in Strategies
Tenths(k) == k * (One \div 10)
Def(x, d) == IF x = 0 THEN d ELSE x
\* what the agent must start with
WantEn(c)   == Max2(0, Def(c.en, 100 * One))
WantInf(c)  == Clamp(Def(c.inf, Tenths(5)), 0, One)
WantStub(c) == Clamp(Def(c.stub, Tenths(2)), 0, One)
\* how far it goes of the way to its preferred phase, and what it calls that
Moves(c) == CASE c.st \in {"", "phase_nudge"} -> {[type |-> "phase_nudge", r |-> Clamp(Def(c.rate, Tenths(7)), 0, One)]}
              [] c.st = "frequency_lock"      -> {[type |-> "frequency_lock", r |-> Clamp(Def(c.rate, Tenths(5)), 0, One)]}
              [] c.st = "energy_aware"        -> {[type |-> "energy_save", r |-> Tenths(1)]}
              [] c.st = "pulse"               -> {[type |-> "pulse", r |-> Tenths(8)]}
              [] c.st = "adaptive"            -> {[type |-> "phase_nudge", r |-> Tenths(3)], [type |-> "frequency_lock", r |-> Tenths(5)]}
\* how many neighbours it takes for the most it can have
Most(c, how) == IF c.maxn > 0 THEN {c.maxn}
                ELSE (IF c.size > 1 THEN {c.size - 1} ELSE {}) \cup (IF how = "large" /\ c.size > 100 THEN {20} ELSE {})
=============================================================================
