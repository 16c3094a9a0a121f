------------------------------ MODULE BuildMC -------------------------------
(* An agent starts from the defaults of a bare agent, and the settings of    *)
(* its configuration are applied one at a time, in any order that puts the   *)
(* budget (which also fills the energy) before the energy.  Whatever the     *)
(* order, and for small and large swarms alike, the result is the one asked  *)
(* for; nothing is built from a configuration that names an unknown part.    *)
EXTENDS Build
VARIABLES c, left, a
vars == <<c, left, a>>
Cfgs == [dm: {"", "simple", "bogus"}, gm: {"", "bogus"}, rm: {"", "token", "bogus"}, st: {"", "phase_nudge", "pulse", "bogus"},
         en: {0, 3 * One, -One}, tok: {0, 2 * One}, rate: {0, Tenths(3), 2 * One, -One}, inf: {0, Tenths(9), 2 * One}, stub: {0, -One}]
Bare == [en |-> 100 * One, inf |-> Tenths(1), stub |-> Tenths(2), move |-> [type |-> "phase_nudge", r |-> Tenths(3)]]
Settings == {"budget", "energy", "influence", "stubbornness", "strategy"}
Init == c \in Cfgs /\ left = Settings /\ a = Bare
Budget == Max2(0, Def(c.tok, Def(c.en, 100 * One)))
Apply(x) == CASE x = "budget"       -> [a EXCEPT !.en = Budget]
              [] x = "energy"       -> [a EXCEPT !.en = Max2(0, Def(c.en, 100 * One))]
              [] x = "influence"    -> [a EXCEPT !.inf = Clamp(Def(c.inf, Tenths(5)), 0, One)]
              [] x = "stubbornness" -> [a EXCEPT !.stub = Clamp(Def(c.stub, Tenths(2)), 0, One)]
              [] x = "strategy"     -> [a EXCEPT !.move = CHOOSE m \in Moves(c) : TRUE]
Next == /\ Known4(c)
        /\ \E x \in left : /\ x = "energy" => "budget" \notin left
                           /\ a' = Apply(x) /\ left' = left \ {x} /\ c' = c
Spec == Init /\ [][Next]_vars
AsAsked == left = {} => a.en = WantEn(c) /\ a.inf = WantInf(c) /\ a.stub = WantStub(c) /\ a.move \in Moves(c)
InRange == a.en >= 0 /\ a.inf \in 0..One /\ a.stub \in 0..One /\ a.move.r \in 0..One
OnlyKnown == left # Settings => Known4(c)
\* at every moment each setting not yet applied still shows the bare agent
Untouched == /\ "influence" \in left => a.inf = Bare.inf
             /\ "stubbornness" \in left => a.stub = Bare.stub
             /\ "strategy" \in left => a.move = Bare.move
=============================================================================
