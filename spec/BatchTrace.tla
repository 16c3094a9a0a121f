----------------------------- MODULE BatchTrace -----------------------------
EXTENDS Batch, TraceLib
TraceInit0(h) == [lo |-> 0, hi |-> 0, n |-> 0, most |-> 0, seen |-> 0, single |-> 0, bs |-> <<>>, peak |-> 0, conv |-> -1, start |-> h.at, run |-> FALSE, idle |-> TRUE]
\* prices arrive in tenths of a cent, ratios in 1e-6
PricesJ(o) ==
  First(<<Need(NearT(o.without, Price * o.calls, 1), "the price without batching is not that of the processed calls"),
          Need(NearT(o.with, (Price \div 2) * o.batches, 1), "the price with batching is not that of the processed batches"),
          Need(NearT(o.sav, o.without - o.with, 1), "the savings are not the difference of the prices"),
          Need(IF o.without <= 0 THEN o.pct = 0 ELSE NearT(o.pct * (o.without \div 15), 100 * (o.sav \div 15), o.without \div 15 + 200), "the savings percentage is wrong"),
          Need(IF o.batches = 0 THEN o.avg = 0 ELSE NearT(o.avg * o.batches, 1000 * o.calls, o.batches), "the average batch size is wrong"),
          Need(o.d[1] + o.d[2] + o.d[3] + o.d[4] + o.d[5] = o.batches, "the size classes do not count every batch once")>>)
ObsJ(o) == First(<<PricesJ(o), Need(Fits(o.d, o.calls), "the size classes do not fit the number of calls"),
                   Need(o.batches * Max >= o.calls, "a batch is larger than the limit"),
                   Need(o.batches <= o.calls, "an empty batch is counted")>>)
\* ---- the manager ----
SubmitS(s, n) == IF s.n >= Cap THEN [s EXCEPT !.hi = @ + n, !.n = @ + 1, !.most = @ + CeilDiv(n, Max), !.single = 0, !.idle = FALSE]
                 ELSE [s EXCEPT !.lo = @ + n, !.hi = @ + n, !.n = @ + 1, !.most = @ + CeilDiv(n, Max), !.single = IF s.n = 0 THEN n ELSE 0, !.idle = FALSE]
SettleJ(s, e) ==
  First(<<ObsJ(e.o),
          Need(e.o.calls >= s.lo, "a submitted task is lost"),
          Need(e.o.calls <= s.hi, "a task is counted twice, or after it was discarded"),
          Need(e.o.batches <= s.most, "tasks that came together are cut into more batches than needed"),
          Need(e.steps, "a batch is larger than the limit"),
          Need(e.o.batches = 0 \/ e.last \in 1..Max, "the size of the last batch is wrong"),
          Need(e.one = 0 \/ e.last = e.one, "the last batch is not the one counted last")>>)
SettleS(s, e) == [s EXCEPT !.lo = e.o.calls, !.hi = e.o.calls, !.n = 0, !.most = e.o.batches, !.single = 0, !.idle = TRUE]
ResetMgr(s) == IF ~s.run \/ s.idle THEN [s EXCEPT !.lo = 0, !.hi = 0, !.n = 0, !.most = 0, !.single = 0, !.idle = TRUE]
               ELSE [s EXCEPT !.lo = 0, !.single = 0]
ResetJ(s, e) == IF s.run /\ ~s.idle THEN PricesJ([e.o EXCEPT !.d = <<e.o.batches, 0, 0, 0, 0>>])
                ELSE Need(e.o.calls = 0 /\ e.o.batches = 0 /\ e.o.without = 0 /\ e.o.with = 0 /\ e.o.sav = 0 /\ e.o.pct = 0 /\ e.o.avg = 0 /\ e.last = 0,
                          "a reset leaves totals behind")
StillJ(s, e) == Need(s.run \/ e.o.calls <= s.hi, "tasks are counted although nothing was processed")
\* ---- the totals alone ----
MetJ(s, e) == LET c == Totals(s.bs) o == e.o IN
  First(<<Need(o.calls = c.calls /\ o.batches = c.batches, "calls or batches are not those recorded"),
          Need(o.without = c.without /\ o.with = c.with, "the prices are not those recorded"),
          PricesJ(o),
          Need(o.d = Classes(s.bs), "a batch is in the wrong size class"),
          Need(o.peak = s.peak, "the peak is not the greatest coherence seen"),
          Need(o.conv = (IF s.conv = -1 THEN 0 ELSE s.conv - s.start), "the time to converge is not that of the first coherence of 0.7")>>)
CohS(s, e) == [s EXCEPT !.peak = Max2(@, e.v), !.conv = IF @ = -1 /\ e.v >= 700000 THEN e.at ELSE @]
TraceStep(s, e) ==
  CASE e.op = "submit" -> OK(SubmitS(s, e.v))
    [] e.op = "start" -> OK([s EXCEPT !.run = TRUE])
    [] e.op = "stop" -> Ver([s EXCEPT !.run = FALSE], <<For("C19", Need(e.ended, "the processor does not stop"))>>)
    [] e.op = "settle" -> Ver(SettleS(s, e), <<For("C19", SettleJ(s, e))>>)
    [] e.op = "still" -> Ver(s, <<For("C19", StillJ(s, e))>>)
    [] e.op = "reset" -> Ver(ResetMgr(s), <<For("C19", ResetJ(s, e))>>)
    [] e.op = "share" -> Ver(s, <<For("C19", Need(e.batches = 1, "tasks submitted within one window never share a batch"))>>)
    [] e.op = "batch" -> LET n == [s EXCEPT !.bs = Append(@, e.v)] IN Ver(n, <<For("C19", MetJ(n, e))>>)
    [] e.op = "coh" -> LET n == CohS(s, e) IN Ver(n, <<For("C19", MetJ(n, e))>>)
    [] e.op = "wait" -> Ver(s, <<For("C19", MetJ(s, e))>>)
    [] e.op = "resetm" -> LET n == [s EXCEPT !.bs = <<>>, !.peak = 0, !.conv = -1, !.start = e.at] IN Ver(n, <<For("C19", MetJ(n, e))>>)
=============================================================================
