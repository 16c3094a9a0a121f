------------------------------- MODULE Agent --------------------------------
(* One agent: its quantities, the operations that set them, and its actions. *)
(* Anchors: emerge/agent/agent.go, atomic_state.go, internal/resource.       *)
EXTENDS Base

\* An agent: ph, goal (phases), en (energy), fr (frequency), inf, stub
\* (behaviour), bud (what is left in its resource budget).
Fields == {"ph", "goal", "en", "fr", "inf", "stub", "bud"}

InRange(a) == /\ a.ph \in 0..TwoPi-1
              /\ a.goal \in 0..TwoPi-1
              /\ a.en >= 0
              /\ a.inf \in 0..One
              /\ a.stub \in 0..One
              /\ a.bud >= 0

Setters == {"SetPhase", "SetLocalGoal", "SetEnergy", "SetFrequency", "SetInfluence", "SetStubbornness"}
\* which quantity a setter sets, and to what
Target(op) == CASE op = "SetPhase"        -> "ph"
                [] op = "SetLocalGoal"    -> "goal"
                [] op = "SetEnergy"       -> "en"
                [] op = "SetFrequency"    -> "fr"
                [] op = "SetInfluence"    -> "inf"
                [] op = "SetStubbornness" -> "stub"
Stored(op, x) == CASE op \in {"SetPhase", "SetLocalGoal"}           -> Wrap(x)
                   [] op = "SetEnergy"                              -> Max2(0, x)
                   [] op = "SetFrequency"                           -> x
                   [] op \in {"SetInfluence", "SetStubbornness"}    -> Clamp(x, 0, One)
Set(a, op, x) == [a EXCEPT ![Target(op)] = Stored(op, x)]

MovingKinds == {"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse"}
Kinds == MovingKinds \cup {"maintain"}

\* result of an action: "ok", "energy" (insufficient energy), "unknown"
Outcome(a, kind, cost) == IF cost > a.en THEN "energy"
                          ELSE IF kind \in Kinds THEN "ok" ELSE "unknown"
Act(a, kind, value, cost) ==
  IF Outcome(a, kind, cost) # "ok" THEN a
  ELSE [a EXCEPT !.ph = IF kind \in MovingKinds THEN Wrap(a.ph + value) ELSE a.ph,
                 !.en = a.en - cost,
                 !.bud = Max2(0, a.bud - cost)]
=============================================================================
