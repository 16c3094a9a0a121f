---------------------------- MODULE UsableTrace -----------------------------
EXTENDS Usable, TraceLib
\* the state remembers the previous limits and efforts of an ascending walk
TraceInit0(h) == [n |-> 0, l |-> [th |-> 0, pr |-> 0, rec |-> 0], eff |-> [c |-> 0, f |-> 0], ms |-> 0]
TuneJ(e) == First(<<Need(Workable(e.cfg), "a tuned configuration leaves the valid range"),
                    Need(e.valid, "validation refuses a tuned configuration"),
                    Need(e.same, "tuning does not return the tuned configuration"),
                    Need(e.build # "err", "no swarm can be built from a tuned configuration")>>)
LimitsJ(s, e) == First(<<Need(OrderedLimits(e.l), "the coherence limits are out of order"),
                         Need(e.n > 3 /\ s.n > 1 => e.l.th >= s.l.th /\ e.l.pr >= s.l.pr /\ e.l.rec >= s.l.rec, "the limits shrink as the swarm grows")>>)
EffJ(s, e) == First(<<Need(e.f >= s.eff.f, "the expected effort shrinks as the target rises"),
                      Need(e.f >= One, "the expected effort is below the normal one"),
                      Need((e.f = Huge) = (e.c > e.l.pr), "an unreachable target has finite effort or a reachable one infinite effort")>>)
AdviseJ(e) == First(<<Need(e.adj = Min2(e.c, e.l.th), "the adjusted target is not the request limited by the theoretical maximum"),
                      Need(e.warn = (e.c > e.l.rec), "the warning does not follow the recommended limit")>>)
\* judged from what a client says about swarms brought to known coherences
ProbeJ(e, tgt) == \A k \in 1..Len(e.probes) :
                    LET p == e.probes[k] IN Abs(p.coh - tgt) <= 60 \/ (p.conv = (p.coh >= tgt))
ClientJ(e) ==
  LET T == IF e.over = 0 THEN Target[e.scale] ELSE e.over IN
  IF e.reject THEN Need(e.err, "an out-of-range target is accepted")
  ELSE First(<<Need(~e.err, "no client can be built"),
               IF e.err THEN "" ELSE
               First(<<Need(e.size = Count[e.scale] /\ e.agents = e.size, "the client does not have the agents of its scale"),
                       Need(ProbeJ(e, Effective(T, e.l)), "the client works toward another target"),
                       Need(Workable(e.cfg), "the client has an unusable configuration")>>)>>)
SwarmJ(e) == First(<<Need(~e.err, "no swarm can be built"),
                     IF e.err THEN "" ELSE Need(ProbeJ(e, Effective(e.c, e.l)), "the target is not the request lowered to the practical limit")>>)
ScaleJ(e) == First(<<Need(e.scale = ScaleOf(e.n), "a count is assigned to the wrong scale")>>)
TabJ(e) == First(<<Need(e.count = Count[e.scale], "the scale has another agent count"),
                   Need(e.target = Target[e.scale], "the scale has another target"),
                   Need(e.back = e.scale, "the scale of its own count differs"),
                   Need(e.target <= e.l.rec, "the default target is not reliably reachable"),
                   Need(e.maxn >= 1 /\ e.maxn < e.count, "the neighbour limit does not fit"),
                   Need(e.upd > 0, "the update interval is not positive")>>)
TraceStep(s, e) ==
  CASE e.op = "tune" -> Ver(s, <<For("C16", TuneJ(e))>>)
    [] e.op = "limits" -> Ver([s EXCEPT !.n = e.n, !.l = e.l], <<For("C16", LimitsJ(s, e))>>)
    [] e.op = "size" -> OK([s EXCEPT !.eff = [c |-> 0, f |-> 0]])
    [] e.op = "effort" -> Ver([s EXCEPT !.eff = [c |-> e.c, f |-> e.f]], <<For("C16", EffJ(s, e))>>)
    [] e.op = "advise" -> Ver(s, <<For("C16", AdviseJ(e))>>)
    [] e.op = "minsize" -> Ver([s EXCEPT !.ms = e.n], <<For("C16", First(<<Need(e.n >= s.ms, "a higher target needs a smaller swarm"),
                                Need(e.c > Cent(99) \/ e.l.th >= e.c, "the minimum size cannot reach the target")>>))>>)
    [] e.op = "client" -> Ver(s, <<For("C16", ClientJ(e))>>)
    [] e.op = "swarm" -> Ver(s, <<For("C16", SwarmJ(e))>>)
    [] e.op = "scaleof" -> Ver(s, <<For("C16", ScaleJ(e))>>)
    [] e.op = "scale" -> Ver(s, <<For("C16", TabJ(e))>>)
=============================================================================
