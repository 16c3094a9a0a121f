--------------------------- MODULE ProgressTrace ----------------------------
EXTENDS Progress, Wide, TraceLib
TraceInit0(h) == NewP(h.w)
ShareW(r, d0, d) == IF d0 = 0 THEN r = One ELSE IF d >= d0 THEN r = 0 ELSE
  \* r * d0 = One * (d0 - d) within one unit of either factor
  LET a == Mul(r, d0) b == Mul(One, d0 - d) slack == Mul(3, Max2(One, d0)) IN Leq(a, Add(b, slack)) /\ Leq(b, Add(a, slack))
Oldest(p) == {x \in 1..PN(p) : x = 1 \/ (PN(p) - x + 1 <= 2 * p.w /\ PN(p) - x + 1 >= p.w)}
RECURSIVE RateSum(_, _, _)
RateSum(rv, k, lo) == IF k < lo THEN <<0, 0>> ELSE LET r == RateSum(rv, k - 1, lo) IN <<r[1] + rv[k], r[2] + (IF rv[k] # 0 THEN 1 ELSE 0)>>
J(p, o) ==
  First(<<Need(o.conv \in Converging(p), "converging does not follow the trend of the window"),
          Need(o.stuck \in StuckSet(p), "stuck does not follow the number of samples without a trend"),
          Need(o.switch \in SwitchSet(p), "the advice to switch does not follow the share of samples without improvement"),
          Need(o.prog >= 0 /\ o.prog <= One /\ o.unit, "progress is outside 0..1"),
          Need(IF PN(p) = 0 THEN o.prog = 0 ELSE \E k \in Oldest(p) : ShareW(o.prog, p.d[k], p.d[PN(p)]),
               "progress is not the share of the remembered distance covered"),
          LET rs == RateSum(o.rv, Len(o.rv), Max2(1, Len(o.rv) - p.w + 1)) IN
          \* a window of one sample holds no pace
          Need(p.w = 1 \/ IF Len(o.rv) < 2 \/ rs[2] = 0 THEN o.rate = 0 ELSE Abs(o.rate * rs[2] - rs[1]) <= 3 * p.w, "the rate is not the mean pace of the window")>>)
\* the number of samples without a trend is only known up to rounding: what was answered narrows it
Narrow(p, o) == [p EXCEPT !.stuck = {s \in @ : (s > 5) = o.stuck}]
TraceStep(p, e) ==
  CASE e.op = "rec" -> LET n == Sample(p, e.d, e.dt) IN LET r == Ver(n, <<For("C14", J(n, e.o))>>) IN
                       IF r.bad = "" THEN [r EXCEPT !.s = Narrow(n, e.o)] ELSE r
    [] e.op = "reset" -> LET n == Forget(p) IN Ver(n, <<For("C14", J(n, e.o))>>)
    [] e.op = "again" -> Ver(p, <<For("C14", J(p, e.o))>>)
    [] e.op = "untargeted" -> Ver(p, <<For("C14", Need(e.unit, "progress is outside 0..1"))>>)
    [] e.op = "bulk" -> Ver(p, <<For("C14", Need(e.kb <= 4000, "memory grows with the number of samples"))>>)
=============================================================================
