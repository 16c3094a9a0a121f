------------------------------ MODULE AgentPool ------------------------------
(* A pool of reusable agents: a taken agent is either one that was returned   *)
(* before and belongs to nobody, or a new one, and is clean in both cases.    *)
EXTENDS Base
Full == 100 * One
Clean(a) == /\ a.nb = 0 /\ a.map = 0 /\ a.part = 0 /\ a.en = Full
            /\ a.okph /\ a.okgoal /\ a.okinf /\ a.okstub /\ a.okfr /\ a.named
Take(s, a) == [s EXCEPT !.own = @ \cup {a}, !.idle = @ \ {a}, !.takes = @ + 1, !.news = IF a \in s.all THEN @ ELSE @ + 1, !.all = @ \cup {a}]
Give(s, a) == [s EXCEPT !.own = @ \ {a}, !.idle = @ \cup {a}, !.gives = @ + 1, !.all = @ \cup {a}]
CountersOK(s, o) == o.gets = s.takes /\ o.puts = s.gives /\ o.inuse = s.takes - s.gives /\ o.news = s.news
=============================================================================
