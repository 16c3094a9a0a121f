---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceLib
TraceInit0(h) == 0
D == [energy |-> 100 * One, basin |-> 3141593, upd |-> 50000, mon |-> 100000]
CfgJ(e) ==
  First(<<Need(e.valid = ValidSwarm(e.in, e.n), "validation accepts what is broken or rejects what is valid"),
          Need(e.kept, "validation changes the configuration"),
          Need(e.err = Hopeless(e.in, e.n), "normalization fails on a repairable configuration or accepts a broken one"),
          IF e.err THEN "" ELSE
          First(<<Need(e.valid2 /\ ValidSwarm(e.out, e.n), "the normalized configuration is not valid"),
                  Need(NormalIs(e.in, e.n, D, e.out), "normalization does not correct to the nearest valid value"),
                  Need(e.twice, "normalizing twice changes more")>>),
          IF e.build = "none" THEN "" ELSE
          Need((e.build = "ok") = ~Hopeless(e.in, e.n), "a swarm is built from a broken configuration or refused with a repairable one")>>)
StateJ(e) ==
  First(<<Need(e.valid = ValidState(e.in), "validation accepts a broken goal or rejects a valid one"),
          Need(e.kept, "validation changes the goal"),
          Need(e.err = StateHopeless(e.in), "normalization fails on a repairable goal or accepts a broken one"),
          IF e.err THEN "" ELSE
          First(<<Need(e.valid2 /\ ValidState(e.out), "the normalized goal is not valid"),
                  Need(StateNormalIs(e.in, 100000, e.out), "normalization does not correct the goal to the nearest valid one"),
                  Need(e.twice, "normalizing a goal twice changes more")>>)>>)
TraceStep(s, e) ==
  CASE e.op = "swarmcfg" -> Ver(s, <<For("C15", CfgJ(e))>>)
    [] e.op = "state" -> Ver(s, <<For("C15", StateJ(e))>>)
    [] e.op = "goalcfg" -> Ver(s, <<For("C15", Need(e.valid = ValidGoal(e.in) /\ e.kept, "goal configuration validation is wrong"))>>)
    [] e.op = "preset" -> Ver(s, <<For("C15", Need(~e.err /\ ValidSwarm(e.out, e.n), "a preset configuration is not usable"))>>)
=============================================================================
