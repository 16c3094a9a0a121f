----------------------------- MODULE AgentTrace -----------------------------
(* Validates recorded calls on real agents.  Every event carries the observed*)
(* quantities before (e.p) and after (e.o) the call.                         *)
EXTENDS Agent, TraceLib

TraceInit0(h) == 0

\* exact range checks are made on the floats by the recorder
RangeC(o) == First(<<Need(o.okph, "phase not in [0, 2pi)"), Need(o.okgoal, "preferred phase not in [0, 2pi)"),
                     Need(o.en >= 0 /\ o.oken, "negative energy"), Need(o.okinf, "influence not in [0, 1]"),
                     Need(o.okstub, "stubbornness not in [0, 1]")>>)
Unchanged(p, o, except) ==
  \A f \in Fields \ except : p[f] = o[f]

SameQ(f, want, got) == IF f \in {"ph", "goal"} THEN SamePhase(want, got) ELSE Near(want, got)

SetJ(e) == LET f == Target(e.op)
               want == Stored(e.op, e.x)
           IN First(<<Need(~e.exact \/ SameQ(f, want, e.o[f]), e.op \o " did not store the given value"),
                      Need(Unchanged(e.p, e.o, {f}), e.op \o " changed another quantity")>>)

ActJ(e) ==
  LET oc == Outcome(e.p, e.kind, e.c)
      \* costs too close to the energy to tell apart in these units are judged by the recorder's exact comparison
      want == IF ~e.afford THEN "energy" ELSE IF e.kind \in Kinds THEN "ok" ELSE "unknown"
      q == Act([e.p EXCEPT !.en = IF want = "ok" THEN Max2(@, e.c) ELSE @], e.kind, e.v, e.c)
  IN First(<<Need(NearT(e.c, e.p.en, 1) \/ oc = want, "recorder disagrees on affordability"),
             Need(e.res = want, "action outcome is " \o e.res \o " instead of " \o want),
             IF want # "ok"
             THEN First(<<Need(e.cost = 0 /\ ~e.okflag, "a refused action reports a cost or success"),
                          Need(Unchanged(e.p, e.o, {}), "a refused action changed the agent or its budget")>>)
             ELSE First(<<Need(e.okflag /\ Near(e.cost, e.c), "a successful action does not report success and its cost"),
                          Need(~e.exact \/ SamePhase(q.ph, e.o.ph), "action did not move the phase by its amount"),
                          Need(e.kind \in MovingKinds \/ e.p.ph = e.o.ph, "maintain moved the phase"),
                          Need(~Small(e.p.en) \/ Near(Max2(0, e.p.en - e.c), e.o.en), "action did not cost exactly its cost in energy"),
                          Need(~Small(e.p.bud) \/ Near(q.bud, e.o.bud), "action did not charge its cost to the resource budget"),
                          Need(Unchanged(e.p, e.o, {"ph", "en", "bud"}), "action changed another quantity")>>)>>)

CtxJ(e) == Need(Unchanged(e.p, e.o, {"goal"}), "context update changed a quantity other than the preferred phase")

\* construction: e.want lists the quantities the caller fixed and their values
NewJ(e) == First([k \in 1..Len(e.want) |->
             LET w == e.want[k] IN
             Need(~w.exact \/ SameQ(Target(w.op), Stored(w.op, w.x), e.o[Target(w.op)]),
                  "constructor did not store the given value with " \o w.op)])

TraceStep(s, e) ==
  Ver(s, <<
    For("C01", RangeC(e.o)),
    IF e.op = "New" THEN For("C01", NewJ(e))
    ELSE IF e.op \in Setters THEN For("C01", SetJ(e))
    ELSE IF e.op = "act" THEN For("C02", ActJ(e))
    ELSE IF e.op = "ctx" THEN For("C01", CtxJ(e))
    ELSE IF e.op = "propose" THEN For("C01", Need(Unchanged(e.p, e.o, {}), "a proposal changed the agent"))
    ELSE "unexpected event">>)
=============================================================================
