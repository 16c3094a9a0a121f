---------------------------- MODULE MonitorTrace ----------------------------
EXTENDS Monitor, TraceLib
TraceInit0(h) == IF h.kind = "conv" THEN NewMonitor(h.thr, 0) ELSE [thr |-> 0, start |-> 0, h |-> <<>>, at |-> <<>>]
Kept(q) == IF Len(q) > 100 THEN SubSeq(q, Len(q) - 99, Len(q)) ELSE q
BriefJ(m, o) ==
  First(<<Need(o.cur = Current(m), "the current coherence is not the last measurement"),
          Need(o.conv = Converged(m), "converged does not tell whether the last measurement is at the threshold"),
          Need(o.ctime = ConvTime(m), "the convergence time is not that of the current stretch")>>)
FullJ(m, o) ==
  First(<<BriefJ(m, o),
          Need(o.hist = m.h, "the history is not that of the measurements since the last reset"),
          Need(o.samples = N(m), "the sample count is wrong"),
          Need(o.scur = Current(m) /\ o.sconv = Converged(m), "the statistics disagree with the last measurement"),
          Need(o.stime = ConvTime(m), "the statistics show another convergence time"),
          IF N(m) = 0 THEN "" ELSE
          First(<<Need(o.max = MaxSeq(m.h), "the maximum is wrong"), Need(o.min = MinSeq(m.h), "the minimum is wrong"),
                  Need(MeanIs(o.mean, m.h, 2), "the mean is wrong")>>),
          Need(SlopeIs(o.rate, Window(m, 10)) /\ SlopeIs(o.srate, Window(m, 10)), "the trend is not that of the latest measurements"),
          Need(DevIs(o.sd, m.h), "the standard deviation is wrong"),
          Need(o.stab = o.sstab /\ DevIs(o.stab, IF N(m) < 2 THEN <<>> ELSE Window(m, 20)), "the stability is not that of the latest 20 measurements"),
          Need(o.psign >= 0, "a negative time to convergence is predicted"),
          Need(o.psame, "the statistics show another prediction"),
          Need((Converged(m) \/ N(m) < 2 \/ o.rate < -1) => o.psign = 0, "a time to convergence is predicted although there is nothing to reach or no progress"),
          Need((~Converged(m) /\ o.rate > 1) => (o.psign = 1 /\ NearT(o.prem, m.thr - Current(m), 5)),
               "the predicted time is not that of the remaining distance at the present trend")>>)
\* ---- concurrent rounds (C13) ----
RApply(m, o) ==
  CASE o.op = "rec" -> {[s |-> Record(m, o.v, 0), ok |-> TRUE]}
    [] o.op = "reset" -> {[s |-> Reset(m, 0), ok |-> TRUE]}
    [] o.op = "cur" -> {[s |-> m, ok |-> o.res = Current(m)]}
    [] o.op = "conv" -> {[s |-> m, ok |-> o.res = Converged(m)]}
    [] o.op = "hist" -> {[s |-> m, ok |-> o.res = m.h]}
    [] o.op = "stats" -> {[s |-> m, ok |-> /\ o.samples = N(m) /\ o.cur = Current(m) /\ o.conv = Converged(m)
                                          /\ (N(m) > 0 => o.max = MaxSeq(m.h) /\ o.min = MinSeq(m.h) /\ MeanIs(o.mean, m.h, 2))
                                          /\ SlopeIs(o.rate, Window(m, 10))]}
    [] o.op = "rate" -> {[s |-> m, ok |-> SlopeIs(o.res, Window(m, 10))]}
    [] o.op = "latest" -> {[s |-> m, ok |-> o.res = Current(m)]}
    [] o.op = "avg" -> {[s |-> m, ok |-> IF N(m) = 0 THEN o.res = 0 ELSE MeanIs(o.res, Kept(m.h), 2)]}
    [] OTHER -> {[s |-> m, ok |-> TRUE]}
RFinal(m, f) == f.hist = m.h
L == INSTANCE Lin WITH Apply <- RApply, FinalOK <- RFinal
BulkJ(e) == First(<<Need(e.n = e.want, "a recorded measurement was lost"), Need(e.torn = 0, "a report mixes several states of the monitor")>>)
TraceStep(m, e) ==
  CASE e.op = "rec" -> LET n == Record(m, e.v, e.at) IN
                       Ver(n, <<For("C12", IF e.brief THEN BriefJ(n, e.o) ELSE "")>>)
    [] e.op = "reset" -> LET n == Reset(m, e.at) IN Ver(n, <<For("C12", FullJ(n, e.o))>>)
    [] e.op = "wait" -> OK(m)
    [] e.op = "report" -> Ver(m, <<For("C12", FullJ(m, e.o))>>)
    [] e.op = "plain" -> Ver([m EXCEPT !.h = Append(@, e.v)],
         <<For("C12", LET q == Kept(Append(m.h, e.v)) IN
            First(<<Need(e.latest = e.v, "the latest sample is wrong"), Need(MeanIs(e.avg, q, 2), "the average is not that of the kept samples"),
                    IF e.full THEN Need(e.hist = q, "the history is not that of the latest 100 samples") ELSE "">>))>>)
    [] e.op = "plain0" -> Ver(m, <<For("C12", Need(e.latest = 0 /\ e.avg = 0 /\ e.n = 0, "an empty monitor reports samples"))>>)
    [] e.op = "round" -> Ver(m, <<For("C13", Need(L!Explained([thr |-> e.thr, start |-> 0, h |-> <<>>, at |-> <<>>], e.th, e.fin),
                                              "no one-at-a-time order explains the reports"))>>)
    [] e.op = "bulk" -> Ver(m, <<For("C13", BulkJ(e))>>)
=============================================================================
